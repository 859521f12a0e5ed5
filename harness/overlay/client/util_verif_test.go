//go:build go1.21

package main

import (
	"path/filepath"
	"strings"
	"unicode/utf8"

	"zkcverif/hz"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/inidb"
)

// inviteToken is what the invited user reads from the console.
func inviteToken(n *node, group string, from ident) uint64 {
	db, err := inidb.New(filepath.Join(n.root, joinsPath), false, 10)
	if err != nil {
		return 0
	}
	r, err := db.Get(group, hexid(from))
	if err != nil {
		return 0
	}
	gi, err := unmarshalInvite(r)
	hz.Must(err)
	return gi.Token
}

// unescape is ttk.Unescape for long strings.
func unescape(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		if s[i] == 0x1b {
			if _, skip, err := ttk.DecodeColor(s[i:min(len(s), i+40)]); err == nil {
				i += skip
				continue
			}
		}
		r, w := utf8.DecodeRuneInString(s[i:])
		sb.WriteRune(r)
		i += w
	}
	return sb.String()
}
