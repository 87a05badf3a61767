HEAD = '''package main

import (
	"fmt"
	"os"
%s)

func fail(f string, a ...any) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("%%v", err)
	}
}
'''
def go(imports, body):
    return HEAD % "".join('\t"%s"\n' % i for i in imports) + body
WAT = '''
// wat is a destination in memory.
type wat struct{ b []byte }

func (w *wat) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(w.b) {
		w.b = append(w.b, make([]byte, n-len(w.b))...)
	}
	copy(w.b[off:], p)
	return len(p), nil
}
'''
