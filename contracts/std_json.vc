# Unmarshalling writes only through the pointer it is given (under C18: to a string).
package encoding/json
func Unmarshal(data, v) (err) trusted
	modifies pointee(v, string)
