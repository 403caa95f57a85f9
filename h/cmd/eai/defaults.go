package main

import (
	"fmt"
	"sync"

	"github.com/ndau/ndaumath/pkg/eai"
	"github.com/ndau/ndaumath/pkg/types"
	"pgregory.net/rapid"
	"verif/h/fw"
)

// C40: the default schedules, before and after any use of them.

// published is the unlocked schedule: one more percent for every thirty days,
// from 2% at thirty days to 10% at two hundred and seventy.
func published(age int64) int64 {
	n := age / (30 * day)
	switch {
	case age < 30*day:
		return 0
	case n > 9:
		n = 9
	}
	return (n + 1) * pct
}

// bonus is the schedule of lock bonuses.
func bonus(d int64) int64 {
	switch {
	case d < 90*day:
		return 0
	case d < 180*day:
		return 1 * pct
	case d < year:
		return 2 * pct
	case d < 2*year:
		return 3 * pct
	case d < 3*year:
		return 4 * pct
	}
	return 5 * pct
}

type defOp struct {
	Op         string
	A, B, C, D fw.I
	Lock       lockCase
	Bonus      bool // uses the table of lock bonuses
}

type defCase struct{ Ops []defOp }

var (
	pristineOnce     sync.Once
	pristU, pristB   eai.RateTable
	defaultStarts    = []int64{0, 30 * day, 60 * day, 90 * day, 120 * day, 150 * day, 180 * day, 210 * day, 240 * day, 270 * day, 300 * day, year, 2 * year, 3 * year, 4 * year}
	defaultStartRows = func() (rows []trow) {
		for _, f := range defaultStarts {
			rows = append(rows, trow{From: fw.I(f)})
		}
		return
	}()
)

func c40() fw.Property {
	instant := func(t *rapid.T, label string) fw.I {
		if fw.Chance(t, 1, 12, label+"far") {
			return fw.I(fw.Signed(t, label+"any"))
		}
		return fw.I(moment(t, defaultStartRows, label))
	}
	gen := func(t *rapid.T) defCase {
		var c defCase
		for n := fw.Int(t, 1, 12, "ops"); n > 0; n-- {
			p := defOp{Op: fw.Pick(t, "op", "rate", "rate", "rate", "slice", "slicef", "eai", "now", "now", "text", "msg", "load"), Bonus: rapid.Bool().Draw(t, "bonus")}
			p.A, p.B = instant(t, "a"), instant(t, "b")
			p.C, p.D = instant(t, "c"), instant(t, "d")
			if p.Op != "rate" && p.Op != "now" {
				for _, x := range []*fw.I{&p.A, &p.B, &p.C, &p.D} {
					*x = *x & (1<<62 - 1) % fw.I(20*year)
				}
				if p.A > p.B {
					p.A, p.B = p.B, p.A
				}
			}
			if p.Op == "eai" || p.Op == "now" {
				at := 10*year + int64(p.D&(1<<62-1))%(20*year)
				p.D = fw.I(at)
				if p.Op == "now" && (int64(p.A) > 1<<61 || int64(p.A) < -1<<61) {
					p.A /= 4
				}
				p.Lock = genLock(t, defaultStartRows, at, at-day)
				p.Lock.Bonus = fw.I(bonus(int64(p.Lock.Notice)))
			}
			c.Ops = append(c.Ops, p)
		}
		return c
	}
	judge := func(c defCase, o *fw.Obs) error {
		pristineOnce.Do(func() {
			pristU = append(eai.RateTable(nil), eai.DefaultUnlockedEAI...)
			pristB = append(eai.RateTable(nil), eai.DefaultLockBonusEAI...)
		})
		// what an earlier case may have done is not this case's doing
		eai.DefaultUnlockedEAI = append(make(eai.RateTable, 0, cap(eai.DefaultUnlockedEAI)), pristU...)
		eai.DefaultLockBonusEAI = append(make(eai.RateTable, 0, cap(eai.DefaultLockBonusEAI)), pristB...)
		at := func(when string, x int64) error {
			if got := int64(eai.DefaultUnlockedEAI.RateAt(types.Duration(x))); got != published(x) {
				return fw.Errf("%s the unlocked rate at age %d is %d, want %d", when, x, got, published(x))
			}
			if got := int64(eai.DefaultLockBonusEAI.RateAt(types.Duration(x))); got != bonus(x) {
				return fw.Errf("%s the lock bonus for %d is %d, want %d", when, x, got, bonus(x))
			}
			return nil
		}
		kinds := map[string]bool{}
		for i, p := range c.Ops {
			kinds[p.Op] = true
			rt, step := eai.DefaultUnlockedEAI, published
			if p.Bonus {
				rt, step = eai.DefaultLockBonusEAI, bonus
			}
			d := func(x fw.I) types.Duration { return types.Duration(x) }
			switch p.Op {
			case "rate":
				for _, x := range []fw.I{p.A, p.B, p.C, p.D} {
					if err := at(fmt.Sprintf("op %d:", i), int64(x)); err != nil {
						return err
					}
				}
			case "slice":
				rs := rt.Slice(d(p.A), d(p.B), d(p.C%fw.I(5*year)))
				// the rate at the last moment, from the schedule itself
				for n := len(rs); p.A < p.B && n > 0; n-- {
					if rs[n-1].Duration == 0 {
						continue
					}
					if want := step(int64(p.B) + int64(p.C%fw.I(5*year)) - 1); int64(rs[n-1].Rate) != want {
						return fw.Errf("op %d: the slice ends at rate %d, want %d", i, int64(rs[n-1].Rate), want)
					}
					break
				}
			case "slicef":
				rt.SliceF(d(p.A), d(p.B), d(p.C%fw.I(5*year)), d(p.D)%(d(p.B)-d(p.A)+1))
			case "eai":
				age := p.B % fw.I(9*year)
				// the exponent in one period may not pass 1
				last := p.D - p.A%(min(age, fw.I(5*year))+1)
				if _, err := eai.Calculate(types.Ndau(p.C), types.Timestamp(p.D), types.Timestamp(last), types.Duration(age), p.Lock.lock(), rt, i%2 == 0); err != nil {
					return fw.Errf("op %d: %v", i, err)
				}
			case "now":
				a := int64(p.A)
				reach, extra := a, int64(p.Lock.Bonus)
				switch {
				case !p.Lock.Has:
					extra = 0
				case !p.Lock.Notified:
					reach += int64(p.Lock.Notice)
				case p.D < p.Lock.Unlocks:
					reach += int64(p.Lock.Unlocks - p.D)
				default:
					extra = 0
				}
				got := int64(eai.CalculateEAIRate(types.Duration(a), p.Lock.lock(), rt, types.Timestamp(p.D)))
				if want := step(reach) + extra; got != want {
					return fw.Errf("op %d: the rate at age %d is %d, want %d", i, a, got, want)
				}
			case "text":
				for j := range rt {
					if j%2 == int(p.A&1) {
						if b, err := rt[j].MarshalText(); err == nil {
							var r eai.RTRow
							if err := r.UnmarshalText(b); err != nil || r != rt[j] {
								return fw.Errf("op %d: row %s reads back as %d:%d, %v", i, b, int64(r.From), int64(r.Rate), err)
							}
						}
					}
				}
			case "msg", "load":
				b, err := rt.MarshalMsg(nil)
				if err != nil {
					return fw.Errf("op %d: %v", i, err)
				}
				var back eai.RateTable
				if p.Op == "load" {
					back = eai.RateTable{{From: 1, Rate: 2}, {From: 3, Rate: 4}}
				}
				if rest, err := back.UnmarshalMsg(b); err != nil || len(rest) != 0 || len(back) != len(rt) {
					return fw.Errf("op %d: the table reads back with %d rows, %d bytes left, %v", i, len(back), len(rest), err)
				}
				for j := range back {
					if back[j] != rt[j] {
						return fw.Errf("op %d: row %d reads back as %d:%d", i, j, int64(back[j].From), int64(back[j].Rate))
					}
					back[j] = eai.RTRow{}
				}
			}
			for _, x := range defaultStarts {
				for _, y := range []int64{x - 1, x} {
					if err := at(fmt.Sprintf("after op %d", i), y); err != nil {
						return err
					}
				}
			}
		}
		if len(eai.DefaultUnlockedEAI) != 9 || len(eai.DefaultLockBonusEAI) != 5 {
			return fw.Errf("the default tables have %d and %d rows", len(eai.DefaultUnlockedEAI), len(eai.DefaultLockBonusEAI))
		}
		o.NTIf(len(kinds) > 2)
		return nil
	}
	return fw.Property{
		ID:          "C40",
		Rule:        "histories of at least three kinds of use",
		Assumptions: []string{shimNote, "the published schedules are those of the comments and the whitepaper they name: 2% from 30 days to 10% from 270 days, bonuses of 1% to 5% for locks of 90 days, 180 days, 1, 2 and 3 years"},
		Subs: []fw.Sub{
			fw.NoNear(fw.Prop("histories", 500000, 6000000, gen, judge)),
			fw.Enum("days", func() (cs []defCase) {
				for d := int64(0); d < 1200; d += 4 {
					x := fw.I(d * day)
					cs = append(cs, defCase{[]defOp{{Op: "rate", A: x, B: x + fw.I(day), C: x + fw.I(2*day), D: x + fw.I(3*day)}}})
				}
				return
			}, func(c defCase, o *fw.Obs) error { o.NT(); return judge(c, o) }),
		},
	}
}
