// Code generated by genalias; DO NOT EDIT.

package rand

import std "crypto/rand"

var Int = std.Int
var Prime = std.Prime
