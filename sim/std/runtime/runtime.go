// Package runtime replaces the scheduling functions of the standard package.
package runtime

import "vsim/rt"

func Gosched() { rt.Gosched() }
