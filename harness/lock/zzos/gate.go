package zzos

import (
	"os"
	"path/filepath"
	"strings"
)

// Gate is called before and after a call on a lock file.
var Gate = func(name, point string) {}

func gate(name, point string) {
	if strings.Contains(strings.ToLower(filepath.Base(name)), "lock") {
		Gate(name, point)
	}
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	gate(name, "open")
	f, err := os.OpenFile(name, flag, perm)
	gate(name, "opened")
	return f, err
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func Stat(name string) (FileInfo, error) {
	gate(name, "stat")
	return os.Stat(name)
}

func Lstat(name string) (FileInfo, error) {
	gate(name, "stat")
	return os.Lstat(name)
}

func Remove(name string) error {
	gate(name, "remove")
	err := os.Remove(name)
	gate(name, "removed")
	return err
}

func RemoveAll(name string) error {
	gate(name, "remove")
	err := os.RemoveAll(name)
	gate(name, "removed")
	return err
}

func Rename(a, b string) error {
	gate(a, "rename")
	gate(b, "rename")
	err := os.Rename(a, b)
	gate(b, "renamed")
	return err
}

func Link(a, b string) error {
	gate(b, "link")
	err := os.Link(a, b)
	gate(b, "linked")
	return err
}
