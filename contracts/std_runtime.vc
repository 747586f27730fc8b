# Where a program counter is in the source: a fixed function of the counter.
package runtime
spec func frameOf(pc uintptr) runtime.Frame
ghost field runtime.Frames.next uintptr = 0
func CallersFrames(callers) (fs) trusted
	ensures fs != nil && fresh(fs) && (len(callers) > 0 ==> fs.next == callers[0])
func (*Frames).Next(fs) (f, more) trusted
	modifies fs.next
	ensures f == frameOf(old(fs.next))
