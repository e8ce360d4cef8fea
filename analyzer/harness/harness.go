// Package harness supplies the most general client of the library: code that
// is only ever analysed, never compiled into anything or run.
package harness

import (
	"embed"
	"path/filepath"
	"strings"
)

//go:embed src
var src embed.FS

const dir = "verifharness"

// Overlay places the harness package inside the module under analysis.
func Overlay(repo, module string) map[string][]byte {
	out := map[string][]byte{}
	es, _ := src.ReadDir("src")
	for _, e := range es {
		b, _ := src.ReadFile("src/" + e.Name())
		s := strings.ReplaceAll(string(b), "MODULE", module)
		out[filepath.Join(repo, dir, strings.TrimSuffix(e.Name(), ".txt"))] = []byte(s)
	}
	return out
}

// Path is the import path of the harness package.
func Path(module string) string { return module + "/" + dir }
