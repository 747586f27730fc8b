# Locks: held is "held by the goroutine running the function under verification".
package sync
ghost field sync.Mutex.held bool = false
func (*Mutex).Lock(m) trusted
	requires unlocked: !m.held
	modifies m.held
	ensures m.held
func (*Mutex).Unlock(m) trusted
	requires locked: m.held
	modifies m.held
	ensures !m.held
