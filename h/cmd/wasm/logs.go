package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verif/h/fw"
	"verif/h/ref"
)

// C42: what the module writes to the console, and what its errors say.

var ranks = map[string]int{"D": 0, "I": 1, "E": 2}

// secretsOf gives the secrets among what a call is given and answers.
func secretsOf(c Call, r callRes) (out []ref.Secret) {
	if c.Fn == "wordsFromPrefix" {
		return nil
	}
	texts := []string{r.Res}
	if r.ResKind == "object" {
		var m map[string]string
		if json.Unmarshal([]byte(r.Res), &m) == nil {
			texts = []string{m["key"]}
		}
	}
	for _, a := range c.Args {
		if a.T == "str" {
			texts = append(texts, a.S)
		} else {
			texts = append(texts, "")
		}
	}
	for i, s := range texts {
		out = append(out, ref.PrivateSecrets(s)...)
		if c.Fn == "wordsToBytes" && i == 0 || c.Fn == "newKey" && i == 1 || c.Fn == "wordsFromBytes" && i == 2 {
			out = append(out, ref.SeedSecrets(s)...)
		}
		if c.Fn == "wordsToBytes" && i > 1 || c.Fn == "wordsFromBytes" && i == 0 {
			out = append(out, ref.PhraseSecrets(s)...)
		}
	}
	return out
}

func judgeLogs(h History, o *fw.Obs) error {
	began := time.Now().Add(-time.Hour).UnixMilli()
	r := ask(h)
	if r.Broken != "" || r.Dead != "" {
		return fw.Errf("the module broke or died: %s%s", r.Broken, r.Dead)
	}
	var known []ref.Secret
	hidden, refused := 0, 0
	for i, c := range h.Calls {
		if i >= len(r.Calls) {
			return fw.Errf("call %d was not made", i)
		}
		cr := r.Calls[i]
		cj, _ := json.Marshal(c)
		fail := func(f string, a ...any) error { return fw.Errf("call %d %s: %s", i, cj, fmt.Sprintf(f, a...)) }
		known = append(known, secretsOf(c, cr)...)
		if len(known) > 40 {
			known = known[len(known)-40:]
		}
		public := ""
		if c.Fn == "sign" && len(c.Args) > 1 {
			public = c.Args[1].S
		}
		public += cr.Throw
		hasCb := c.Cb && len(c.Tail) == 0
		sawErr, sawDebug, all := false, false, true
		level := ""
		for _, l := range cr.Lines {
			var e struct {
				Lvl, Msg, Src *string
				Ts            *float64
			}
			if err := json.Unmarshal([]byte(l[1]), &e); err != nil || e.Lvl == nil || e.Msg == nil || e.Src == nil || e.Ts == nil {
				if hasCb {
					return fail("the console shows %q, which is not an entry of the log", l[1])
				}
			} else {
				rank, ok := ranks[*e.Lvl]
				if !ok || *e.Src != "KEYADDR" || *e.Msg == "" {
					return fail("the log has %s", l[1])
				}
				if t := int64(*e.Ts); t < began || t > time.Now().Add(time.Hour).UnixMilli() {
					return fail("the entry %s is not of now", l[1])
				}
				if min, ok := ranks[l[0]]; ok && rank < min {
					return fail("at level %s the log has %s", l[0], l[1])
				}
				sawErr = sawErr || *e.Lvl == "E" && *e.Msg == cr.Err
				sawDebug = sawDebug || *e.Lvl == "D" && strings.Contains(*e.Msg, c.Fn)
				all = all && *e.Lvl == "E"
			}
			for _, s := range known {
				if w := s.Shows(l[1], public, fw.InSource); w != "" {
					return fail("the console shows %q, which has %q of %s", l[1], w, s.What)
				}
			}
			hidden++
			level = l[0]
		}
		if cr.ErrKind == "error" {
			refused++
			if !sawErr {
				return fail("refused with %q, which is not in the log: %q", cr.Err, cr.Lines)
			}
			if cr.Err != "" {
				for _, s := range known {
					if w := s.Shows(cr.Err, public, fw.InSource); w != "" {
						return fail("the error %q has %q of %s", cr.Err, w, s.What)
					}
				}
			}
		}
		if (level == "D" || level == "" && c.Level == "D") && hasCb && cr.N == 1 && !sawDebug {
			return fail("at level D the log has only %q", cr.Lines)
		}
		o.LabelIf(hasCb && cr.ErrKind == "null", "ok-"+c.Fn)
		o.LabelIf(cr.ErrKind == "error", "refused-"+c.Fn)
	}
	o.NTIf(hidden > 0 && len(known) > 0 && refused > 0)
	return nil
}

func c42() fw.Property {
	return fw.Property{
		ID:   "C42",
		Rule: "histories with entries in the log, secrets among the arguments and at least one refusal",
		Assumptions: []string{
			"the module is built with go build for js/wasm and run under node; calls are made one after another",
			"secrets are private keys, recovery bytes and phrases which the calls were given or answered, as text, hexadecimal, base 64 or numbers; message bytes and public keys are not",
		},
		Subs: []fw.Sub{fw.NoNear(fw.Prop("logs", 1200, 25000, func(t *rapid.T) History {
			h := history(t, fw.Int(t, 1, 16, "calls"))
			h.Together, h.Chain, h.Lines = false, false, true
			if fw.Chance(t, 1, 2, "quiet") {
				h.Level = fw.Pick(t, "ql", "D", "I", "E", "E")
			}
			// often every answer is to be seen at every level
			if fw.Chance(t, 1, 4, "each") {
				for i := range h.Calls {
					h.Calls[i].Level = fw.Pick(t, "el", "D", "I", "E", "-", "X")
				}
			}
			return h
		}, judgeLogs))},
	}
}
