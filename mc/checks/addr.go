package checks

import (
	"fmt"
	"net/url"
	"strings"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
)

// C23: addresses, built from parts so that nothing has to be parsed to know what
// the result should be.

type addrFns struct {
	name  string
	parse func(string) (*url.URL, error)
	norm  func(string) (string, error)
}

var (
	dcAddr   = addrFns{"dc", dc.ParseAddr, dc.NormalizeAddr}
	nmdcAddr = addrFns{"nmdc", nmdc.ParseAddr, nmdc.NormalizeAddr}
	adcAddr  = addrFns{"adc", adc.ParseAddr, adc.NormalizeAddr}
)

// canonScheme returns the canonical form and the protocol of a scheme.
func canonScheme(s string, has bool) (string, *addrFns) {
	if !has {
		return "dchub", &nmdcAddr
	}
	switch strings.ToLower(s) {
	case "nmdc", "dchub":
		return "dchub", &nmdcAddr
	case "nmdcs":
		return "nmdcs", &nmdcAddr
	case "adc", "adcs":
		return strings.ToLower(s), &adcAddr
	}
	return "", nil
}

func urlText(u *url.URL) string {
	if u == nil {
		return "nil"
	}
	return fmt.Sprintf("%q user %q host %q path %q raw %q query %q fragment %q", u.Scheme, u.User.String(), u.Host, u.Path, u.EscapedPath(), u.RawQuery, u.Fragment)
}

func agree(c *C, addr string, a, b addrFns) {
	ua, ea := a.parse(addr)
	ub, eb := b.parse(addr)
	c.Ops(4)
	c.Assert((ea == nil) == (eb == nil), "%q: %s.ParseAddr gives %v, %s.ParseAddr %v", addr, a.name, ea, b.name, eb)
	if ea == nil {
		c.Assert(urlText(ua) == urlText(ub), "%q: %s.ParseAddr gives %s, %s.ParseAddr %s", addr, a.name, urlText(ua), b.name, urlText(ub))
	}
	na, ea := a.norm(addr)
	nb, eb := b.norm(addr)
	c.Assert((ea == nil) == (eb == nil) && (ea != nil || na == nb), "%q: %s.NormalizeAddr gives %q, %v, %s.NormalizeAddr %q, %v", addr, a.name, na, ea, b.name, nb, eb)
}

func init() {
	register("C23", []string{
		"an escaped slash at the end of a path may count as a trailing slash",
		"an ADC address without a port may be refused when normalising (there is no default port)",
		"addresses in the form scheme:rest without // are not addresses",
	}, func(thorough bool) []S {
		schemes := []string{"", "dchub", "nmdc", "nmdcs", "adc", "adcs", "DCHUB", "Nmdc", "NMDCS", "ADC", "AdcS", "http", "https", "adcx", "dchubs", "nmdcss", "ad", "dc", "adc+tls", "ftp", "tcp"}
		users := []string{"", "user@", "user:p@"}
		hosts := []string{"example.com", "adc.example.com", "adc", "adcs", "nmdc.org", "dchub", "EXAMPLE.com", "127.0.0.1", "[::1]", "[fe80::1%25eth0]", "", "a", "a-b.c_d"}
		ports := []string{"", ":411", ":0", ":65535", ":", ":0411"}
		paths := []string{"", "/", "//", "///", "/a", "/a/", "/a//", "/a/b", "/a//b/", "/a%20b/", "/a%2Fb", "/a%2Fb/", "//a", "/a://b", "/adc://", "/adc", "/%D1%85", "/a;b=c,d/"}
		queries := []string{"", "?", "?kp=SHA256/AAA", "?kp=SHA256/AAA/", "?a=b&c=d&a=e", "?ref=http://x/", "?a=%2F%20+", "?/", "?adc://x"}
		frags := []string{"", "#f", "#/"}
		if !thorough {
			users = users[:2]
			frags = frags[:2]
		}
		prod := S{"parts", fmt.Sprintf("product of %d schemes x %d users x %d hosts x %d ports x %d paths x %d queries x %d fragments", len(schemes), len(users), len(hosts), len(ports), len(paths), len(queries), len(frags)), func(c *C) {
			scheme := schemes[c.Choose(len(schemes))]
			user := users[c.Choose(len(users))]
			host := hosts[c.Choose(len(hosts))]
			port := ports[c.Choose(len(ports))]
			path := paths[c.Choose(len(paths))]
			query := queries[c.Choose(len(queries))]
			frag := frags[c.Choose(len(frags))]
			if scheme == "" && port == ":" && strings.HasPrefix(path, "//") {
				c.Skip() // that is a scheme
			}
			rest := user + host + port + path + query + frag
			addr := rest
			if scheme != "" {
				addr = scheme + "://" + rest
			}
			canon, p := canonScheme(scheme, scheme != "")
			c.Checked()
			if p == nil {
				for _, f := range []addrFns{dcAddr, nmdcAddr, adcAddr} {
					_, err := f.parse(addr)
					s, err2 := f.norm(addr)
					c.Ops(2)
					c.Assert(err != nil && err2 != nil, "%q: %s accepts the scheme: %v, %q, %v", addr, f.name, err, s, err2)
				}
				return
			}
			other := adcAddr
			if p == &adcAddr {
				other = nmdcAddr
			}
			_, err := other.parse(addr)
			s, err2 := other.norm(addr)
			c.Ops(2)
			c.Assert((err != nil || scheme == "") && err2 != nil, "%q: %s accepts it: %v, %q, %v", addr, other.name, err, s, err2)
			agree(c, addr, dcAddr, *p)

			wpath := strings.TrimRight(path, "/")
			u, err := p.parse(addr)
			c.Assert(err == nil, "%q: %s.ParseAddr: %v", addr, p.name, err)
			unz := strings.Replace(host, "%25", "%", 1)
			c.Assert(u.Scheme == canon && u.Host == unz+port && u.EscapedPath() == wpath && "?"+u.RawQuery == "?"+strings.TrimPrefix(query, "?") && u.Fragment == strings.TrimPrefix(frag, "#"),
				"%q: %s.ParseAddr gives %s", addr, p.name, urlText(u))
			if user != "" {
				c.Assert(u.User.String()+"@" == user, "%q: %s.ParseAddr gives %s", addr, p.name, urlText(u))
			} else {
				c.Assert(u.User == nil, "%q: %s.ParseAddr gives %s", addr, p.name, urlText(u))
			}
			s, err = p.norm(addr)
			c.Op()
			if host == "" {
				c.Assert(err != nil, "%q: %s.NormalizeAddr accepts an address without a host: %q", addr, p.name, s)
				return
			}
			if err != nil && p == &adcAddr && port == "" {
				return
			}
			c.Assert(err == nil, "%q: %s.NormalizeAddr: %v", addr, p.name, err)
			want := canon + "://" + user + host + port + wpath + query + frag
			c.Assert(s == want, "%q: %s.NormalizeAddr gives %q, want %q", addr, p.name, s, want)
			s2, err := p.norm(s)
			c.Op()
			c.Assert(err == nil && s2 == s, "%q: normalising %q again gives %q, %v", addr, s, s2, err)
			c.StateS(s)
		}}
		var esc []string // every escaped byte, in both letter cases
		for i := 0; i < 256; i++ {
			esc = append(esc, fmt.Sprintf("%%%02X", i))
			if l := fmt.Sprintf("%%%02x", i); l != esc[len(esc)-1] {
				esc = append(esc, l)
			}
		}
		for b := byte(0x21); b < 0x7f; b++ {
			if !strings.ContainsRune("%?#/<>[]^`{|}\\\"", rune(b)) {
				esc = append(esc, string(b)) // may stand in a path
			}
		}
		around := [][2]string{{"/", ""}, {"/", "/"}, {"/a", ""}, {"/a", "b"}, {"/a/", "//"}, {"/", "/a"}, {"/a%20", ""}, {"/%2F", ""}, {"/é", ""}}
		if !thorough {
			around = around[:8]
		}
		chars := S{"characters", fmt.Sprintf("every escaped byte and every character of a path, alone and in pairs, in %d places of the path and in the query", len(around)), func(c *C) {
			pre := []string{"", "dchub://", "nmdcs://", "adc://", "adcs://"}[c.Choose(5)]
			e := esc[c.Choose(len(esc))]
			if c.Bool() {
				e += []string{"%20", "%09", ".", "%61", "%2B", "+", ";", "%C3%A9"}[c.Choose(8)]
			}
			a := around[c.Choose(len(around))]
			path := a[0] + e + a[1]
			query := ""
			if k := c.Choose(3); k > 0 {
				query = []string{"?k=" + e, "?" + e + "=v/"}[k-1]
			}
			addr := pre + "h.org:411" + path + query
			p := nmdcAddr
			canon := "dchub://"
			if strings.HasPrefix(pre, "adc") {
				p = adcAddr
			}
			if pre != "" {
				canon = pre
			}
			wpath := strings.TrimRight(path, "/")
			if strings.HasSuffix(strings.ToUpper(wpath), "%2F") {
				c.Skip()
			}
			agree(c, addr, dcAddr, p)
			c.Checked()
			u, err := p.parse(addr)
			c.Assert(err == nil && u.EscapedPath() == wpath && u.RawQuery == strings.TrimPrefix(query, "?"), "%q: %s.ParseAddr gives %s, %v", addr, p.name, urlText(u), err)
			s, err := p.norm(addr)
			want := canon + "h.org:411" + wpath + query
			c.Ops(2)
			c.Assert(err == nil && s == want, "%q: %s.NormalizeAddr gives %q, %v, want %q", addr, p.name, s, err, want)
			c.StateS(s)
		}}
		n := 5
		al := "a:/.[]?@%1 "
		if thorough {
			n, al = 6, "aA:/.[]?#@%1 "
		}
		wild := S{"texts", fmt.Sprintf("every text of <= %d characters over %q, bare and after 6 schemes: no crash, normalising is idempotent, hosts are present, entry points agree", n, al), func(c *C) {
			pre := []string{"", "dchub://", "nmdcs://", "adc://", "adcs://h:1", "nmdc://h"}[c.Choose(6)]
			addr := pre + chooseStr(c, al, 0, n)
			p := nmdcAddr
			if strings.HasPrefix(pre, "adc") {
				p = adcAddr
			}
			if pre == "" && strings.Contains(addr, ":/") {
				// the scheme is part of the text: only nmdc can refuse it
				p = nmdcAddr
			}
			agree(c, addr, dcAddr, p)
			c.Checked()
			s, err := p.norm(addr)
			c.Op()
			if err != nil {
				return
			}
			s2, err := p.norm(s)
			c.Assert(err == nil && s2 == s, "%q: normalised to %q, and again to %q, %v", addr, s, s2, err)
			u, err := p.parse(s)
			c.Assert(err == nil && u.Hostname() != "", "%q: normalised to %q without a host: %v", addr, s, err)
			o, err := p.parse(addr)
			c.Ops(2)
			c.Assert(err == nil && urlText(o) == urlText(u), "%q: normalised to %q, %s differs from %s", addr, s, urlText(u), urlText(o))
			c.StateS(s)
		}}
		return []S{prod, chars, wild}
	})
}
