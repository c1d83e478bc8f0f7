package vsym

import (
	"io"
	"os"
	"path/filepath"
)

// Files of a harness: under the engine they are kept here, and opening, reading and closing a file is done by the
// functions below; natively they are real ones in a directory of their own.
var (
	files map[string][]byte
	open  map[*os.File]*handle
)

type handle struct {
	b      []byte
	closed bool
}

// Dir makes an empty directory; Clean removes it.
func Dir() string {
	if Symbolic() {
		files, open = map[string][]byte{}, map[*os.File]*handle{}
		return "/files"
	}
	d, err := os.MkdirTemp("", "vsym")
	if err != nil {
		panic(Skip{err.Error()})
	}
	return d
}

func Clean(dir string) {
	if !Symbolic() {
		os.RemoveAll(dir)
	}
}

// File puts a file into a directory.
func File(dir, name string, b []byte) {
	if Symbolic() {
		files[filepath.Join(dir, name)] = b
		return
	}
	if err := os.WriteFile(filepath.Join(dir, name), b, 0600); err != nil {
		panic(Skip{err.Error()})
	}
}

func openFile(name string) (*os.File, error) {
	b, ok := files[filepath.Clean(name)]
	if !ok {
		return nil, os.ErrNotExist
	}
	f := new(os.File)
	open[f] = &handle{b: b}
	return f, nil
}

func openFlags(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag != os.O_RDONLY {
		return nil, os.ErrPermission
	}
	return openFile(name)
}

func wholeFile(name string) ([]byte, error) {
	b, ok := files[filepath.Clean(name)]
	if !ok {
		return nil, os.ErrNotExist
	}
	return append([]byte{}, b...), nil
}

func readFile(f *os.File, p []byte) (int, error) {
	h := open[f]
	if h == nil || h.closed {
		return 0, os.ErrInvalid
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(h.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, h.b)
	h.b = h.b[n:]
	return n, nil
}

func closeFile(f *os.File) error {
	h := open[f]
	if h == nil || h.closed {
		return os.ErrInvalid
	}
	h.closed = true
	return nil
}
