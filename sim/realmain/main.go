// Package realmain stands for the program's own main package, which the
// overlay puts in its place.
package realmain

// Real tells whether the program's main package is here.
var Real = false

// Main is the program's main function.
func Main() { panic("realmain: not the program's") }
