package hx

import "strings"

func init() {
	props["XE"] = exploreEnc
	props["XD"] = exploreDec
}

func exploreEnc(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Enc() {
			return
		}
		for i := 0; i < 100; i++ {
			v := t.Val()
			if i > 0 {
				RandValue(v, r, 0, FieldOpt{})
			}
			b, err := Enc(v)
			vd, _ := c.JudgeEnc(t, v, b, err)
			c.Report(vd, t, ShowV(v), string(b))
		}
	})
}

func exploreDec(c *Ctx) {
	c.Each(func(t *TypeInfo, r *Rnd) {
		if !t.Dec() {
			return
		}
		m := modelFor(t)
		for i := 0; i < 300; i++ {
			j := m.RandDoc(t.Type(), r, 0, FieldOpt{})
			sort := ""
			if i > 60 {
				sort = Mutate(j, r, pick(r, []string{"kind", "num", "null", "len", "str", "unknown", "dup", "drop"}))
			}
			txt := j.Text(&Style{R: r, Space: i%2 == 0, Escape: i%3 == 0, Shuf: i%4 == 0})
			got := t.Val()
			ge := DecInto(got, []byte(txt))
			vd, _ := c.JudgeDec(t, j, t.Val(), got, ge, FieldOpt{})
			if !vd.OK() {
				vd.What = sort + ": " + vd.What
			}
			c.Report(vd, t, txt, ShowV(got))
		}
	})
}

func init() { props["XP"] = explorePath }

func explorePath(c *Ctx) {
	c.EachN(1, func(t *TypeInfo, r *Rnd) {
		if !t.Dec() {
			return
		}
		for i := 0; i < 3; i++ {
			j, ok := c.base(t, r, true)
			if !ok {
				continue
			}
			for _, p := range places(t.Type(), j) {
				if p.t == nil || len(p.path) == 0 {
					continue
				}
				v := jArr(jArr(jObj()))
				if p.j.K == KArr {
					v = jStr("zz")
				}
				doc := edit(j, p.i, func(n *J) { *n = *v })()
				err := DecInto(t.Val(), []byte(doc.Text(nil)))
				if err == nil {
					continue
				}
				s := err.Error()
				want := p.dot()
				if !strings.Contains(s, "'"+want+"'") {
					c.Violation(t, "path", want, s)
				} else {
					c.Count("exact", 1)
				}
			}
		}
	})
}
