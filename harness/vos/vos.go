// Package vos replaces package os: every operation on the file system is announced before it happens.
package vos

import (
	"io"
	"os"
	"strings"
	"time"
	"wiki2book/zz_verif/vsched"
)

// Before is asked before an operation. An error makes the operation fail without any effect. mutates tells whether the operation
// changes the file system.
var Before func(op, path string, mutates bool) error

// stable removes the random part of the names of temporary files.
func stable(path string) string {
	if strings.Contains(path, "/.tmp/") {
		return strings.TrimRight(path, "0123456789")
	}
	return path
}

func before(op, path string, mutates bool) error {
	if vsched.Active() {
		vsched.Point(op + " " + stable(path))
	}
	if Before != nil {
		return Before(op, path, mutates)
	}
	return nil
}

func Chmod(name string, mode FileMode) error {
	if err := before("chmod", name, true); err != nil {
		return err
	}
	return os.Chmod(name, mode)
}

func Chtimes(name string, a time.Time, m time.Time) error {
	if err := before("chtimes", name, true); err != nil {
		return err
	}
	return os.Chtimes(name, a, m)
}

// File is an open file; its write operations are announced, too.
type File struct {
	*os.File
	closed bool
}

func wrap(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{File: f}, nil
}

func then(err error) {
	if t, ok := err.(interface{ Then() }); ok {
		t.Then()
	}
}

// Partial is asked how many of the n bytes a write operation may store; the error is returned after storing them.
var Partial func(path string, n int) (int, error)

func (f *File) Write(p []byte) (int, error) {
	if err := before("write", f.Name(), true); err != nil {
		return 0, err
	}
	if Partial != nil {
		if n, err := Partial(f.Name(), len(p)); err != nil {
			k, _ := f.File.Write(p[:n])
			then(err)
			return k, err
		}
	}
	return f.File.Write(p)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(struct{ io.Writer }{f}, r) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := before("write", f.Name(), true); err != nil {
		return 0, err
	}
	return f.File.WriteAt(p, off)
}

func (f *File) Truncate(n int64) error {
	if err := before("truncate", f.Name(), true); err != nil {
		return err
	}
	return f.File.Truncate(n)
}

func (f *File) Sync() error {
	if err := before("sync", f.Name(), false); err != nil {
		return err
	}
	return f.File.Sync()
}

// Close may report an error although the file is closed.
func (f *File) Close() error {
	if f.closed {
		return f.File.Close()
	}
	f.closed = true
	e := before("close", f.Name(), false)
	if err := f.File.Close(); err != nil {
		return err
	}
	return e
}

func Create(name string) (*File, error) {
	if err := before("create", name, true); err != nil {
		return nil, err
	}
	return wrap(os.Create(name))
}

func CreateTemp(dir, pattern string) (*File, error) {
	if err := before("createtemp", dir+"/"+pattern, true); err != nil {
		return nil, err
	}
	return wrap(os.CreateTemp(dir, pattern))
}

func Link(a, b string) error {
	if err := before("link", b, true); err != nil {
		return err
	}
	return os.Link(a, b)
}

func Symlink(a, b string) error {
	if err := before("symlink", b, true); err != nil {
		return err
	}
	return os.Symlink(a, b)
}

func Mkdir(name string, perm FileMode) error {
	if err := before("mkdir", name, true); err != nil {
		return err
	}
	return os.Mkdir(name, perm)
}

func MkdirAll(name string, perm FileMode) error {
	if err := before("mkdirall", name, true); err != nil {
		return err
	}
	return os.MkdirAll(name, perm)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if err := before("mkdirtemp", dir+"/"+pattern, true); err != nil {
		return "", err
	}
	return os.MkdirTemp(dir, pattern)
}

func Open(name string) (*File, error) {
	if err := before("open", name, false); err != nil {
		return nil, err
	}
	return wrap(os.Open(name))
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if err := before("openfile", name, flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0); err != nil {
		return nil, err
	}
	return wrap(os.OpenFile(name, flag, perm))
}

func ReadFile(name string) ([]byte, error) {
	if err := before("readfile", name, false); err != nil {
		return nil, err
	}
	return os.ReadFile(name)
}

func ReadDir(name string) ([]DirEntry, error) {
	if err := before("readdir", name, false); err != nil {
		return nil, err
	}
	return os.ReadDir(name)
}

func Remove(name string) error {
	if err := before("remove", name, true); err != nil {
		return err
	}
	return os.Remove(name)
}

func RemoveAll(name string) error {
	if err := before("removeall", name, true); err != nil {
		return err
	}
	return os.RemoveAll(name)
}

func Rename(a, b string) error {
	if err := before("rename", b, true); err != nil {
		return err
	}
	return os.Rename(a, b)
}

func Stat(name string) (FileInfo, error) {
	if err := before("stat", name, false); err != nil {
		return nil, err
	}
	return os.Stat(name)
}

func Lstat(name string) (FileInfo, error) {
	if err := before("lstat", name, false); err != nil {
		return nil, err
	}
	return os.Lstat(name)
}

func Truncate(name string, size int64) error {
	if err := before("truncate", name, true); err != nil {
		return err
	}
	return os.Truncate(name, size)
}

// WriteFile happens in two steps: the file is created empty, then it gets its content.
func WriteFile(name string, data []byte, perm FileMode) error {
	if err := before("writefile-create", name, true); err != nil {
		return err
	}
	f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	half := len(data) / 2
	if Partial != nil {
		if n, err := Partial(name, len(data)); err != nil {
			f.Write(data[:n])
			then(err)
			f.Close()
			return err
		}
	}
	if _, err = f.Write(data[:half]); err != nil {
		f.Close()
		return err
	}
	if err := before("writefile-rest", name, true); err != nil {
		f.Close()
		return err
	}
	_, err = f.Write(data[half:])
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

// OnExit replaces the end of the process.
var OnExit func(code int)

func Exit(code int) {
	if OnExit != nil {
		OnExit(code)
	}
	os.Exit(code)
}
