package vsched

import "reflect"

// nativeSelect runs a select outside any execution (plain Go behaviour).
func nativeSelect(def bool, cases []Case) Sel {
	rc := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, k := range cases {
		if k.send {
			c, v := k.val.(interface {
				chv() (interface{}, interface{})
			}).chv()
			cv := reflect.ValueOf(c)
			vv := reflect.ValueOf(v)
			if !vv.IsValid() {
				vv = reflect.Zero(cv.Type().Elem())
			}
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectSend, Chan: cv, Send: vv})
		} else {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(k.val)})
		}
	}
	if def {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if def && i == len(cases) {
		return Sel{I: -1}
	}
	s := Sel{I: i, ok: ok}
	if !cases[i].send && ok {
		s.val = v.Interface()
	}
	return s
}
