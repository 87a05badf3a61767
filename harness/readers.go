package main

import (
	"errors"
	"io"
)

// Conforming random-access readers that behave differently within what io.ReaderAt allows.

type readerAt struct {
	b     []byte
	style int
	fail  int64 // reads touching this offset fail (if >= 0)
	calls int
}

var (
	errInjected      = errors.New("injected read error")
	errInjectedWrite = errors.New("injected write error")
)

// Styles: end of file together with the last bytes or afterwards; errors after partial data.
const (
	raEOFLate  = iota // a read ending exactly at the end returns nil
	raEOFEarly        // it returns io.EOF
	raSection         // a window of something bigger
	raScribble        // unused buffer space is overwritten when reading short
	raStyles
)

func newReaderAt(c *Ctx, b []byte) io.ReaderAt {
	return styledReaderAt(b, c.Rng.Intn(raStyles))
}

func styledReaderAt(b []byte, style int) io.ReaderAt {
	if style == raSection {
		big := append(append([]byte("0123456789abcdef!<arch>\nxx"), b...), []byte("trailing bytes that do not belong to it")...)
		return io.NewSectionReader(&readerAt{b: big, style: raEOFLate, fail: -1}, 26, int64(len(b)))
	}
	return &readerAt{b: b, style: style, fail: -1}
}

func (r *readerAt) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if len(p) == 0 {
		if r.style == raEOFEarly && off >= int64(len(r.b)) {
			return 0, io.EOF
		}
		return 0, nil
	}
	if r.fail >= 0 && off <= r.fail && r.fail < off+int64(len(p)) {
		n := 0
		if off < int64(len(r.b)) {
			n = copy(p[:r.fail-off], r.b[off:])
		}
		return n, errInjected
	}
	if off >= int64(len(r.b)) {
		return 0, io.EOF
	}
	n := copy(p, r.b[off:])
	if n < len(p) {
		if r.style == raScribble {
			for i := n; i < len(p); i++ {
				p[i] = 0xee
			}
		}
		return n, io.EOF
	}
	if r.style == raEOFEarly && off+int64(n) == int64(len(r.b)) {
		return n, io.EOF
	}
	return n, nil
}
