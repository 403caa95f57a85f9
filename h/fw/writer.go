package fw

import "errors"

// FailingWriter takes Room bytes, then fails: for good, or once, taking
// everything afterwards.
type FailingWriter struct {
	Room int
	Once bool
	Got  []byte
	bad  bool
}

// ErrWriter is what a FailingWriter fails with.
var ErrWriter = errors.New("the stream fails")

// Write is io.Writer's.
func (w *FailingWriter) Write(p []byte) (int, error) {
	if w.bad && w.Once {
		w.Got = append(w.Got, p...)
		return len(p), nil
	}
	if len(w.Got)+len(p) <= w.Room {
		w.Got = append(w.Got, p...)
		return len(p), nil
	}
	n := w.Room - len(w.Got)
	w.Got = append(w.Got, p[:n]...)
	w.bad = true
	return n, ErrWriter
}
