# maps.Clone makes a new map with the same content (nil for nil).
package maps
func Clone(m) (r) trusted
	ensures m == nil ==> r == nil
	ensures m != nil ==> r != nil && fresh(r) && dom(r) == dom(m) && mval(r) == mval(m) && len(r) == len(m)
