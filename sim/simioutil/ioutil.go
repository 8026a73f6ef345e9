// Package simioutil stands in for io/ioutil.
package simioutil

import (
	"io"
	"io/fs"

	"verifsim/simos"
)

var (
	Discard   = io.Discard
	ReadAll   = io.ReadAll
	NopCloser = io.NopCloser
)

func ReadFile(name string) ([]byte, error) { return simos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return simos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*simos.File, error) { return simos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return simos.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := simos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, nil
}
