package vos

import (
	"io/fs"
	"os"
	"path/filepath"
)

// Walk is filepath.Walk whose steps are announced.
func Walk(root string, fn filepath.WalkFunc) error {
	info, err := lstatStep(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func lstatStep(path string) (os.FileInfo, error) {
	if err := before("walk", path, false); err != nil {
		return nil, err
	}
	return os.Lstat(path)
}

func walk(path string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	var names []string
	err := before("walkdir", path, false)
	if err == nil {
		var l []os.DirEntry
		l, err = os.ReadDir(path)
		for _, e := range l {
			names = append(names, e.Name())
		}
	}
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, name := range names {
		p := filepath.Join(path, name)
		fi, err := lstatStep(p)
		if err != nil {
			if err := fn(p, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err = walk(p, fi, fn); err != nil {
			if !fi.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

// WalkDir is filepath.WalkDir whose steps are announced.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if e := before("walk", path, false); e != nil && err == nil {
			err = e
		}
		return fn(path, d, err)
	})
}
