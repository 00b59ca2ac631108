// Package reinit re-runs the package initialisers of the instrumented code under test. This stub
// is replaced through the build overlay written by ../instr.
package reinit

// All does nothing in the stub.
func All() {}
