// Package zip stands in for archive/zip: an archive is a text that starts with "ZIP" and has, for every entry, its name
// and its content, each on a line; the content "!" is that of an entry that cannot be opened, and "!!" of one that
// cannot be read to its end.
package zip

import (
	"errors"
	"io"
	"os"
	"strings"
	"time"

	"github.com/boynton/sadl/zzh/fake/http"
)

var ErrFormat = errors.New("zip: not a valid zip file")

type FileHeader struct {
	Name     string
	Modified time.Time
}

type File struct {
	FileHeader
	data string
}

// Text is an archive with the entries given: name, content, name, content...
func Text(entries ...string) string { return strings.Join(append([]string{"ZIP"}, entries...), "\n") }

type entry struct {
	*strings.Reader
	open, damaged bool
}

func (e *entry) Read(p []byte) (int, error) {
	http.Yield()
	n, err := e.Reader.Read(p)
	if err == io.EOF && e.damaged {
		err = errors.New("zip: checksum error")
	}
	return n, err
}

func (e *entry) Close() error {
	http.Yield()
	if !e.open {
		return errors.New("closed twice")
	}
	e.open = false
	return nil
}

func (f *File) Open() (io.ReadCloser, error) {
	http.Yield()
	if f.data == "!" {
		return nil, ErrFormat
	}
	return &entry{strings.NewReader(f.data), true, f.data == "!!"}, nil
}

type Reader struct {
	File    []*File
	Comment string
}

type ReadCloser struct {
	Reader
}

func (r *ReadCloser) Close() error { return nil }

func parse(text string) (*Reader, error) {
	l := strings.Split(text, "\n")
	if l[0] != "ZIP" || len(l)%2 != 1 {
		return nil, ErrFormat
	}
	r := &Reader{}
	for i := 1; i < len(l); i += 2 {
		r.File = append(r.File, &File{FileHeader{Name: l[i]}, l[i+1]})
	}
	return r, nil
}

func OpenReader(name string) (*ReadCloser, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	r, err := parse(string(b))
	if err != nil {
		return nil, err
	}
	return &ReadCloser{*r}, nil
}

func NewReader(r io.ReaderAt, size int64) (*Reader, error) {
	b := make([]byte, size)
	if _, err := r.ReadAt(b, 0); err != nil && err != io.EOF {
		return nil, err
	}
	return parse(string(b))
}
