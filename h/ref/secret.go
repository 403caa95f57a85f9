package ref

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"
)

// Secret is a text which must not show, not even a part of Size characters.
type Secret struct {
	What, Text string
	Size       int
}

// PrivateSecrets gives the forms of a private key which starts with the prefix
// of such keys.
func PrivateSecrets(s string) (out []Secret) {
	if len(s) < 32 || !strings.EqualFold(s[:4], "npvt") {
		return nil
	}
	// the prefix and the first characters are those of every key
	out = append(out, Secret{"the text of a private key", s[8:], 14})
	if b, err := B32Strict(strings.ToLower(s[4:])); err == nil && len(b) > 40 {
		out = append(out, Secret{"a private key in hexadecimal", hex.EncodeToString(b[8:]), 20})
		out = append(out, Secret{"a private key in base 64", base64.StdEncoding.EncodeToString(b[6:]), 14})
		out = append(out, Secret{"a private key in numbers", fmt.Sprint(b[8:]), 24})
	}
	return out
}

// SeedSecrets gives the forms of recovery bytes which are given in base 64.
func SeedSecrets(s string) (out []Secret) {
	if len(s) < 16 {
		return nil
	}
	out = append(out, Secret{"recovery bytes", s, 14})
	if b, err := base64.StdEncoding.DecodeString(s); err == nil {
		out = append(out, Secret{"recovery bytes in hexadecimal", hex.EncodeToString(b), 20})
		out = append(out, Secret{"recovery bytes in numbers", fmt.Sprint(b), 24})
	}
	return out
}

// PhraseSecrets gives every four words in a row of a phrase.
func PhraseSecrets(s string) (out []Secret) {
	ws := strings.Fields(s)
	for i := 0; i+4 <= len(ws); i++ {
		if w := strings.Join(ws[i:i+4], " "); len(w) >= 12 {
			out = append(out, Secret{"words of a phrase", w, len(w)})
		}
	}
	return out
}

// Shows gives the part of the secret which the text shows, unless it is public
// or plain or one character or number over and over.
func (s Secret) Shows(text, public string, plain func(string) bool) string {
	if len(text) < s.Size {
		return ""
	}
	for i := 0; i+s.Size <= len(s.Text); i++ {
		w := s.Text[i : i+s.Size]
		if strings.Contains(text, w) && !strings.Contains(public, w) && !dull(w) && !plain(w) {
			return w
		}
	}
	return ""
}

func dull(w string) bool {
	seen := map[rune]bool{}
	for _, c := range w {
		if c != ' ' {
			seen[c] = true
		}
	}
	return len(seen) < 3
}
