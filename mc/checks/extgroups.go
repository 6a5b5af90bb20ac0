package checks

import (
	"fmt"
	"strings"

	"github.com/direct-connect/go-dc/adc"
)

// C27: extension groups (an independent copy of the table of the SEGA extension).

var segaGroups = []struct {
	mask int
	exts string
}{
	{1, "ape flac m4a mid mp3 mpc ogg ra wav wma"},
	{2, "7z ace arj bz2 gz lha lzh rar tar tz z zip"},
	{4, "doc docx htm html nfo odf odp ods odt pdf ppt pptx rtf txt xls xlsx xml xps"},
	{8, "app bat cmd com dll exe jar msi ps1 vbs wsf"},
	{16, "bmp cdr eps gif ico img jpeg jpg png ps psd sfw tga tif webp"},
	{32, "3gp asf asx avi divx flv mkv mov mp4 mpeg mpg ogm pxp qt rm rmvb swf vob webm wmv"},
}

var segaExt = map[string]int{}
var segaList []string

func init() {
	for _, g := range segaGroups {
		for _, e := range strings.Fields(g.exts) {
			segaExt[e] = g.mask
			segaList = append(segaList, e)
		}
	}
}

// extGroupOf is the group bit of a file name (0 for unknown extensions).
func extGroupOf(name string) int {
	ext := ""
	for i := 0; i < len(name); i++ {
		b := name[i]
		switch {
		case b == '.':
			ext = ""
			continue
		case b >= 'A' && b <= 'Z':
			b += 'a' - 'A'
		}
		ext += string([]byte{b})
	}
	return segaExt[ext]
}

// matchAll compares the answer for a name under every mask.
func matchAll(c *C, name string) {
	g := extGroupOf(name)
	for mask := 0; mask < 64; mask++ {
		got := adc.ExtGroup(mask).Matches(name)
		c.Op()
		c.Assert(got == (mask == 0 || mask&g != 0), "a search for groups %#x answers %v for the file %q (group %#x)", mask, got, name, g)
	}
	for _, bit := range []adc.ExtGroup{adc.ExtAudio, adc.ExtArch, adc.ExtDoc, adc.ExtExe, adc.ExtImage, adc.ExtVideo} {
		got := bit.Matches(name)
		c.Assert(got == (int(bit)&g != 0), "a search for group %#x answers %v for the file %q (group %#x)", int(bit), got, name, g)
	}
	c.Checked()
	c.StateS(fmt.Sprint(g, name))
}

func letterCase(s string, bits int) string {
	b := []byte(s)
	for i := range b {
		if bits>>uint(i)&1 != 0 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 'a' - 'A'
		}
	}
	return string(b)
}

func init() {
	register("C27", []string{
		"letter case is considered for ASCII only (no extension of the table has other letters)",
		"group bits that are not defined by the protocol are not used",
	}, func(thorough bool) []S {
		prefixes := []string{"", ".", "a.", "a.b.", "mp3.", "a b.", "/dir.exe/file.", `\dir.jpg\x.`, "..", "Ж.", "\xff.", strings.Repeat("x", 300) + ".", "x.mp3.", " ."}
		suffixes := []string{"", ".", "x", " ", "~", "/", "\\", ".bak", ".tar", "3", "\x00", "Ж", "\xff", ".."}
		list := S{"table", "every listed extension, every letter case, every prefix and suffix form, under all 64 masks", func(c *C) {
			e := segaList[c.Choose(len(segaList))]
			n := letterCase(e, c.Choose(1<<uint(len(e))))
			p := pick(c, prefixes...)
			s := ""
			if n == e {
				s = pick(c, suffixes...)
			}
			matchAll(c, p+n+s)
		}}
		edits := S{"neighbours", "every text one edit (any ASCII byte inserted, replaced, removed, swapped) away from a listed extension, bare and after a dot, under all 64 masks", func(c *C) {
			e := segaList[c.Choose(len(segaList))]
			pos := c.Choose(len(e) + 1)
			var n string
			switch c.Choose(4) {
			case 0:
				n = e[:pos] + string([]byte{byte(c.Choose(128))}) + e[pos:]
			case 1:
				if pos == len(e) {
					c.Skip()
				}
				n = e[:pos] + string([]byte{byte(c.Choose(128))}) + e[pos+1:]
			case 2:
				if pos == len(e) {
					c.Skip()
				}
				n = e[:pos] + e[pos+1:]
			case 3:
				if pos+2 > len(e) {
					c.Skip()
				}
				n = e[:pos] + e[pos+1:pos+2] + e[pos:pos+1] + e[pos+2:]
			}
			if c.Bool() {
				n = "file." + n
			}
			matchAll(c, n)
		}}
		ln := 4
		if thorough {
			ln = 5
		}
		short := S{"short names", fmt.Sprintf("every text of <= %d characters over a-z 0-9 and the dot, under all 64 masks", ln), func(c *C) {
			matchAll(c, chooseStr(c, "abcdefghijklmnopqrstuvwxyz0123456789.", 0, ln))
		}}
		pairs := S{"double extensions", "every pair of listed extensions a.b and b alone decides, under all 64 masks", func(c *C) {
			a, b := segaList[c.Choose(len(segaList))], segaList[c.Choose(len(segaList))]
			matchAll(c, pick(c, a+"."+b, "x."+a+"."+b, a+"."+b+".", a+b, a+"/"+b, a+" "+b, a+","+b))
		}}
		return []S{list, edits, short, pairs}
	})
}
