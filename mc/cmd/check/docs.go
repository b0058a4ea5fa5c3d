package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/masagroup/soft.go/ecore"
)

// docConverter is a URI converter over documents kept in memory.
type docConverter struct {
	*ecore.EURIConverterImpl
	docs  map[string][]byte
	reads map[string]int
}

func newDocConverter() *docConverter {
	return &docConverter{EURIConverterImpl: ecore.NewEURIConverterImpl(), docs: map[string][]byte{}, reads: map[string]int{}}
}

type docWriter struct {
	bytes.Buffer
	done func([]byte)
}

func (w *docWriter) Close() error { w.done(w.Bytes()); return nil }

func (d *docConverter) CreateReader(uri *ecore.URI) (io.ReadCloser, error) {
	n := d.Normalize(uri).String()
	b, ok := d.docs[n]
	if !ok {
		return nil, fmt.Errorf("no document %s", n)
	}
	d.reads[n]++
	return io.NopCloser(bytes.NewReader(b)), nil
}

func (d *docConverter) CreateWriter(uri *ecore.URI) (io.WriteCloser, error) {
	n := d.Normalize(uri).String()
	return &docWriter{done: func(b []byte) { d.docs[n] = append([]byte{}, b...) }}, nil
}
