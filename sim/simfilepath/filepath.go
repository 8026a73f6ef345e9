// Package simfilepath stands in for path/filepath: what looks at files looks at
// the simulated ones.
package simfilepath

import (
	"io/fs"
	"path/filepath"
	"sort"

	"verifsim/simos"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

type WalkFunc = filepath.WalkFunc

var (
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
	ErrBadPattern = filepath.ErrBadPattern

	Base       = filepath.Base
	Clean      = filepath.Clean
	Dir        = filepath.Dir
	Ext        = filepath.Ext
	FromSlash  = filepath.FromSlash
	ToSlash    = filepath.ToSlash
	IsAbs      = filepath.IsAbs
	IsLocal    = filepath.IsLocal
	Join       = filepath.Join
	Match      = filepath.Match
	Rel        = filepath.Rel
	Split      = filepath.Split
	SplitList  = filepath.SplitList
	VolumeName = filepath.VolumeName
)

func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := simos.Getwd()
	if err != nil {
		return "", err
	}
	return Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Stat(p); err != nil {
		return "", err
	}
	return Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	abs, _ := Abs(pattern)
	var out []string
	for p := range simos.Cur().FS {
		if ok, _ := Match(abs, p); ok {
			if !IsAbs(pattern) {
				wd, _ := simos.Getwd()
				p, _ = Rel(wd, p)
			}
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out, nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var fi fs.FileInfo
		if d != nil {
			fi, _ = d.Info()
		}
		return fn(p, fi, err)
	})
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := simos.ReadDir(p)
	if err != nil {
		return fn(p, d, err)
	}
	for _, e := range es {
		if err := walk(Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
