package lib

import (
	"os"
	"path/filepath"
)

var scratch string

// WithFiles runs f in a scratch directory with the given files (path -> content), and removes them afterwards.
// The directory is under TMPDIR, which check.sh and replay.sh remove.
func WithFiles(files map[string]string, f func(dir string) error) error {
	if scratch == "" {
		d, err := os.MkdirTemp("", "files")
		if err != nil {
			return err
		}
		scratch = d
	}
	dir, err := os.MkdirTemp(scratch, "d")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	for p, c := range files {
		p = filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(c), 0o644); err != nil {
			return err
		}
	}
	return f(dir)
}

// RemoveScratch removes the scratch directory.
func RemoveScratch() {
	if scratch != "" {
		os.RemoveAll(scratch)
		scratch = ""
	}
}
