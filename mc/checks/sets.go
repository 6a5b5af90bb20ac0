package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
)

// C26: feature sets.

var extNames = []string{"TLS", "TTHSearch", "ZPipe0", "tls", "T", "TLSX"}

// extSet is the set of names selected by the bits.
func extSet(bits int) nmdc.Extensions {
	m := make(nmdc.Extensions)
	for i, n := range extNames {
		if bits>>uint(i)&1 != 0 {
			m[n] = struct{}{}
		}
	}
	return m
}

func extBits(f map[string]struct{}) int {
	b := 0
	for n := range f {
		found := false
		for i, x := range extNames {
			if x == n {
				b |= 1 << uint(i)
				found = true
			}
		}
		if !found {
			return -1
		}
	}
	return b
}

func listBits(l []string) int {
	f := make(map[string]struct{})
	for _, n := range l {
		f[n] = struct{}{}
	}
	return extBits(f)
}

var adcFeats = []adc.Feature{adc.FeaTIGR, adc.FeaPING, {'t', 'i', 'g', 'r'}, adc.FeaTS, adc.FeaBAS0, adc.FeaBASE}

// modSet: every feature is absent (0), added (1) or removed (2).
func modSet(v int, n int) (adc.ModFeatures, []int) {
	m := make(adc.ModFeatures)
	st := make([]int, n)
	for i := 0; i < n; i++ {
		st[i] = v % 3
		v /= 3
		if st[i] != 0 {
			m[adcFeats[i]] = st[i] == 1
		}
	}
	return m, st
}

func modState(c *C, f adc.ModFeatures, n int) []int {
	st := make([]int, n)
	k := 0
	for i := range st {
		if v, ok := f[adcFeats[i]]; ok {
			k++
			st[i] = 2
			if v {
				st[i] = 1
			}
		}
	}
	c.Assert(k == len(f), "unexpected features in %v", f)
	return st
}

func sameInts(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func init() {
	register("C26", []string{
		"a feature that is present in an update as removed: queries for it are not specified",
		"a list that adds and removes the same feature is not specified",
		"intersections may repeat a name that the list repeats; they are compared as sets",
	}, func(thorough bool) []S {
		nm := len(extNames)
		ext := S{"extensions", fmt.Sprintf("every pair of subsets of %d names, and nil", nm), func(c *C) {
			a, b := c.Choose(1<<uint(nm)), c.Choose(1<<uint(nm))
			x, y := extSet(a), extSet(b)
			if a == 0 && c.Bool() {
				x = nil
			}
			if b == 0 && c.Bool() {
				y = nil
			}
			unchanged := func(what string) {
				c.Assert(extBits(x) == a && extBits(y) == b, "%s changed its operands: %v, %v", what, x, y)
			}
			c.Ops(6)
			c.Checked()
			i := x.Intersect(y)
			c.Assert(extBits(i) == a&b, "intersection of %v and %v is %v", x.List(), y.List(), i.List())
			unchanged("Intersect")
			l := y.List()
			c.Assert(sort.StringsAreSorted(l) && listBits(l) == b && len(l) == len(y), "list of %v is %v", y, l)
			il := x.IntersectList(l)
			c.Assert(extBits(il) == a&b, "intersection of %v and list %v is %v", x.List(), l, il.List())
			unchanged("IntersectList")
			cl := x.Clone()
			c.Assert(extBits(cl) == a, "clone of %v is %v", x.List(), cl.List())
			for k, n := range extNames {
				c.Assert(x.Has(n) == (a>>uint(k)&1 != 0), "%v: Has(%q) is %v", x.List(), n, x.Has(n))
			}
			// results do not share state
			for _, r := range []nmdc.Extensions{i, il, cl} {
				if r == nil {
					continue
				}
				for k, n := range extNames {
					r.Set(n)
					c.Assert(r.Has(n), "Set(%q) has no effect", n)
					_ = k
				}
				unchanged("changing a result")
			}
			for k := range l {
				l[k] = "changed"
			}
			unchanged("changing a list")
			if x != nil {
				cl = x.Clone()
				ii := x.Intersect(y)
				for _, n := range extNames {
					x.Set(n)
				}
				for n := range y {
					delete(y, n)
				}
				c.Assert(extBits(cl) == a && extBits(ii) == a&b, "changing the operands changed their clone to %v or intersection to %v", cl, ii)
			}
			c.StateS(fmt.Sprint(a, b))
		}}
		ln := 4
		if thorough {
			ln = 5
		}
		lists := S{"supports", fmt.Sprintf("every pair of lists of <= %d of 4 names with repetitions", ln), func(c *C) {
			mk := func() []string {
				k := c.Choose(ln + 1)
				var l []string
				for i := 0; i < k; i++ {
					l = append(l, extNames[c.Choose(4)])
				}
				return l
			}
			a, b := mk(), mk()
			x, y := &nmdc.Supports{Ext: append(make([]string, 0, 8), a...)}, &nmdc.Supports{Ext: append(make([]string, 0, 8), b...)}
			r := x.Intersect(y)
			c.Op()
			c.Checked()
			c.Assert(listBits(r.Ext) == listBits(a)&listBits(b) && len(r.Ext) <= len(b), "intersection of %v and %v is %v", a, b, r.Ext)
			c.Assert(fmt.Sprint(x.Ext) == fmt.Sprint(a) && fmt.Sprint(y.Ext) == fmt.Sprint(b), "intersecting changed %v, %v to %v, %v", a, b, x.Ext, y.Ext)
			il := extSet(listBits(a)).IntersectList(b)
			c.Assert(extBits(il) == listBits(a)&listBits(b), "intersection of %v and list %v is %v", a, b, il)
			scramble(&r)
			c.Assert(fmt.Sprint(x.Ext) == fmt.Sprint(a) && fmt.Sprint(y.Ext) == fmt.Sprint(b), "changing the intersection changed %v, %v to %v, %v", a, b, x.Ext, y.Ext)
			r = x.Intersect(y)
			s := fmt.Sprint(r.Ext)
			scramble(x)
			scramble(y)
			c.Assert(fmt.Sprint(r.Ext) == s, "changing the operands changed the intersection from %v to %v", s, r.Ext)
			// over the wire
			x = &nmdc.Supports{Ext: a}
			line, err := nmdc.Marshal(nil, x)
			c.Assert(err == nil, "encoding %v: %v", a, err)
			m, err := nmdc.Unmarshal(nil, line)
			c.Ops(2)
			c.Assert(err == nil && listBits(m.(*nmdc.Supports).Ext) == listBits(a) && len(m.(*nmdc.Supports).Ext) == len(a), "%v are encoded as %q and decoded as %v, %v", a, line, m, err)
			// repeated spaces
			var sup nmdc.Supports
			sp := strings.Repeat(" ", c.Choose(3))
			err = sup.UnmarshalNMDC(nil, []byte(sp+strings.Join(a, " "+sp)+sp))
			c.Assert(err == nil && listBits(sup.Ext) == listBits(a) && len(sup.Ext) == len(a), "%v with spaces are decoded as %q, %v", a, sup.Ext, err)
			c.StateS(fmt.Sprint(a, b))
		}}
		nf := 5
		if thorough {
			nf = 6
		}
		pow := 1
		for i := 0; i < nf; i++ {
			pow *= 3
		}
		mods := S{"updates", fmt.Sprintf("every pair of updates that leave, add or remove each of %d features, and nil", nf), func(c *C) {
			av, bv := c.Choose(pow), c.Choose(pow)
			x, a := modSet(av, nf)
			y, b := modSet(bv, nf)
			if av == 0 && c.Bool() {
				x = nil
			}
			if bv == 0 && c.Bool() {
				y = nil
			}
			unchanged := func(what string) {
				c.Assert(sameInts(modState(c, x, nf), a) && sameInts(modState(c, y, nf), b), "%s changed its operands: %v, %v", what, x, y)
			}
			c.Ops(5)
			c.Checked()
			in := x.Intersect(y)
			merged := x.SetFrom(y)
			cl := x.Clone()
			unchanged("an operation")
			wi, wm := make([]int, nf), make([]int, nf)
			for i := range a {
				if a[i] == 1 && b[i] == 1 {
					wi[i] = 1
				}
				wm[i] = a[i]
				if b[i] != 0 {
					wm[i] = b[i]
				}
			}
			c.Assert(sameInts(modState(c, in, nf), wi), "intersection of %v and %v is %v", x, y, in)
			c.Assert(sameInts(modState(c, merged, nf), wm), "%v updated with %v is %v", x, y, merged)
			c.Assert(sameInts(modState(c, cl, nf), a), "clone of %v is %v", x, cl)
			var names []string
			for i := range a {
				c.Assert(x.IsSet(adcFeats[i]) == (a[i] == 1), "%v: IsSet(%v) is %v", x, adcFeats[i], x.IsSet(adcFeats[i]))
				if a[i] == 1 {
					names = append(names, adcFeats[i].String())
				}
			}
			got := []string{}
			if s := x.Join(); s != "" {
				got = strings.Split(s, ",")
			}
			sort.Strings(got)
			sort.Strings(names)
			c.Assert(strings.Join(got, ",") == strings.Join(names, ","), "joining %v gives %q", x, x.Join())
			for _, r := range []adc.ModFeatures{in, merged, cl} {
				for _, f := range adcFeats {
					if r != nil {
						r[f] = !r[f]
					}
				}
				unchanged("changing a result")
			}
			merged = x.SetFrom(y)
			cl = x.Clone()
			in = x.Intersect(y)
			for _, f := range adcFeats {
				if x != nil {
					x[f] = !x[f]
				}
				if y != nil {
					delete(y, f)
				}
			}
			c.Assert(sameInts(modState(c, merged, nf), wm) && sameInts(modState(c, cl, nf), a) && sameInts(modState(c, in, nf), wi), "changing the operands changed the results")
			c.StateS(fmt.Sprint(av, bv))
		}}
		wire := S{"lists", fmt.Sprintf("every sequence of <= %d additions and removals of distinct features out of %d, received in new and used sets; encoded and decoded again", nf, nf), func(c *C) {
			v, old := c.Choose(pow), c.Choose(pow)
			_, st := modSet(v, nf)
			base, ost := modSet(old, nf)
			// the named features, in every order
			var idx []int
			for i, s := range st {
				if s != 0 {
					idx = append(idx, i)
				}
			}
			var toks []string
			for len(idx) > 0 {
				k := c.Choose(len(idx))
				i := idx[k]
				idx = append(append([]int(nil), idx[:k]...), idx[k+1:]...)
				toks = append(toks, []string{"", "AD", "RM"}[st[i]]+adcFeats[i].String())
			}
			data := strings.Join(toks, " ")
			f := base
			err := f.UnmarshalADC([]byte(data))
			c.Op()
			c.Checked()
			want := make([]int, nf)
			for i := range want {
				want[i] = ost[i]
				if st[i] != 0 {
					want[i] = st[i]
				}
			}
			c.Assert(err == nil && sameInts(modState(c, f, nf), want), "receiving %q gives %v, %v", data, f, err)
			sup := adc.Supported{}
			err = adc.Unmarshal([]byte(data), &sup)
			c.Op()
			c.Assert(err == nil && sameInts(modState(c, sup.Features, nf), st), "receiving %q gives %v, %v", data, sup.Features, err)
			var buf bytes.Buffer
			c.Assert(adc.Marshal(&buf, sup) == nil, "encoding %v", sup)
			back := adc.Supported{}
			err = adc.Unmarshal(buf.Bytes(), &back)
			c.Ops(2)
			c.Assert(err == nil && sameInts(modState(c, back.Features, nf), st), "%v is encoded as %q and decoded as %v, %v", sup, buf.String(), back, err)
			c.StateS(fmt.Sprint(v, old, data))
		}}
		feats := S{"feature lists", fmt.Sprintf("every list of <= %d of %d features: query, encode, decode", nf, len(adcFeats)), func(c *C) {
			k := c.Choose(nf + 1)
			var l adc.ExtFeatures
			var names []string
			has := map[adc.Feature]bool{}
			for i := 0; i < k; i++ {
				f := adcFeats[c.Choose(len(adcFeats))]
				l = append(l, f)
				has[f] = true
				names = append(names, f.String())
			}
			for _, f := range append(adcFeats, adc.Feature{}, adc.FeaADC0) {
				c.Assert(l.Has(f) == has[f], "%v: Has(%v) is %v", l, f, l.Has(f))
			}
			var buf bytes.Buffer
			err := l.MarshalADC(&buf)
			c.Assert(err == nil && buf.String() == strings.Join(names, ","), "%v is encoded as %q, %v", l, buf.String(), err)
			var back adc.ExtFeatures
			err = back.UnmarshalADC(buf.Bytes())
			c.Assert(err == nil && (len(l) == 0 && len(back) == 0 || reflect.DeepEqual(back, l)), "%v is encoded as %q and decoded as %v, %v", l, buf.String(), back, err)
			var add []string
			for f := range has {
				add = append(add, f.String())
			}
			sort.Strings(add)
			buf.Reset()
			c.Assert(adc.AddFeatures(add).MarshalADC(&buf) == nil, "encoding %v", add)
			spec := ""
			for i, f := range add {
				if i != 0 {
					spec += " "
				}
				spec += "AD" + f
			}
			c.Assert(buf.String() == spec, "%v are encoded as %q, want %q", add, buf.String(), spec)
			var mod adc.ModFeatures
			err = mod.UnmarshalADC(buf.Bytes())
			c.Assert(err == nil && len(mod) == len(has), "%v are encoded as %q and decoded as %v, %v", add, buf.String(), mod, err)
			for f := range has {
				c.Assert(mod[f], "%v are encoded as %q and decoded as %v", add, buf.String(), mod)
			}
			c.Ops(4)
			c.Checked()
			c.StateS(fmt.Sprint(names))
		}}
		return []S{ext, lists, mods, wire, feats}
	})
}
