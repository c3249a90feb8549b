//go:build go1.23

package simrt

import "reflect"

type pkgReset struct {
	path string
	fn   func()
}

var pkgs []pkgReset

// RegisterPkg records the function that re-initialises a package. Packages
// register in initialisation order, dependencies first.
func RegisterPkg(path string, fn func()) { pkgs = append(pkgs, pkgReset{path, fn}) }

// ResetAll gives every package of the module its initial state again, as a new
// process would have it. skip leaves packages as they are.
func ResetAll(skip func(path string) bool) {
	for _, p := range pkgs {
		if skip == nil || !skip(p.path) {
			p.fn()
		}
	}
}

// Packages lists the instrumented packages.
func Packages() (l []string) {
	for _, p := range pkgs {
		l = append(l, p.path)
	}
	return
}

// Zero sets *p to its zero value.
func Zero(p any) {
	v := reflect.ValueOf(p).Elem()
	v.Set(reflect.Zero(v.Type()))
}
