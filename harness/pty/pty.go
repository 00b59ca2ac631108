// Package pty opens pseudo terminals.
package pty

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

func ioctl(fd uintptr, req uintptr, p unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)); e != 0 {
		return e
	}
	return nil
}

// Open returns the two ends of a new pseudo terminal without echo.
func Open() (m, s *os.File, err error) {
	mfd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	m = os.NewFile(uintptr(mfd), "ptmx")
	var n uint32
	var u int32
	if err = ioctl(uintptr(mfd), syscall.TIOCGPTN, unsafe.Pointer(&n)); err == nil {
		err = ioctl(uintptr(mfd), syscall.TIOCSPTLCK, unsafe.Pointer(&u))
	}
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	sfd, err := syscall.Open(fmt.Sprintf("/dev/pts/%d", n), syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	s = os.NewFile(uintptr(sfd), "pts")
	var t syscall.Termios
	if err = ioctl(uintptr(sfd), syscall.TCGETS, unsafe.Pointer(&t)); err == nil {
		t.Lflag &^= syscall.ECHO | syscall.ECHONL
		err = ioctl(uintptr(sfd), syscall.TCSETS, unsafe.Pointer(&t))
	}
	if err != nil {
		m.Close()
		s.Close()
		return nil, nil, err
	}
	return m, s, nil
}

// Leftover counts the lines (and end-of-file marks) that were written to the terminal but not read.
func Leftover(s *os.File) int {
	fd := int(s.Fd())
	_ = syscall.SetNonblock(fd, true)
	n := 0
	b := make([]byte, 8192)
	for {
		_, err := syscall.Read(fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return n
		}
		n++
	}
}

// SetEcho turns echo on, as a terminal has it.
func SetEcho(f *os.File) error {
	var t syscall.Termios
	if err := ioctl(f.Fd(), syscall.TCGETS, unsafe.Pointer(&t)); err != nil {
		return err
	}
	t.Lflag |= syscall.ECHO
	return ioctl(f.Fd(), syscall.TCSETS, unsafe.Pointer(&t))
}

// Echo tells whether the terminal shows what is typed.
func Echo(f *os.File) bool {
	var t syscall.Termios
	err := ioctl(f.Fd(), syscall.TCGETS, unsafe.Pointer(&t))
	return err == nil && t.Lflag&syscall.ECHO != 0
}
