package vsched

var colds []func()

// OnCold registers how a package returns its variables to the values they start with; packages
// register in the order of their initialisation.
func OnCold(f func()) { colds = append(colds, f) }

// Cold returns the code under test to the global state it starts with.
func Cold() {
	for _, f := range colds {
		f()
	}
}

// TryCold reports whether Cold works; if not, the program must be started again without it.
func TryCold() (ok bool) {
	defer func() { ok = recover() == nil }()
	Cold()
	return
}

// NoCold makes Cold do nothing.
func NoCold() { colds = nil }

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
