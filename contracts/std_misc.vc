package os
func Exit(code) trusted
	ensures false

package math
func NaN() (r) pure
	ensures r != r
