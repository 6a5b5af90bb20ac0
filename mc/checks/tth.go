package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	th "github.com/cxmcc/tiger"

	"github.com/direct-connect/go-dc/tiger"
)

// C20: tree hashes, against a recursive reference built on the raw hash function.

func refTiger(parts ...[]byte) (out [24]byte) {
	h := th.New()
	for _, p := range parts {
		h.Write(p)
	}
	copy(out[:], h.Sum(nil))
	return
}

func refLeaves(data []byte) [][24]byte {
	if len(data) == 0 {
		return [][24]byte{refTiger([]byte{0})}
	}
	var out [][24]byte
	for len(data) > 0 {
		n := len(data)
		if n > 1024 {
			n = 1024
		}
		out = append(out, refTiger([]byte{0}, data[:n]))
		data = data[n:]
	}
	return out
}

// refRoot: the left subtree holds the largest power of two smaller than n.
func refRoot(leaves [][24]byte) [24]byte {
	if len(leaves) == 1 {
		return leaves[0]
	}
	k := 1
	for k*2 < len(leaves) {
		k *= 2
	}
	l, r := refRoot(leaves[:k]), refRoot(leaves[k:])
	return refTiger([]byte{1}, l[:], r[:])
}

func sameLeaves(a tiger.Leaves, b [][24]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != tiger.Hash(b[i]) {
			return false
		}
	}
	return true
}

// tthContent makes content of one of several kinds.
func tthContent(kind, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(i*31 + i/1024*7 + i/251)
		case 1: // zeros
		case 2:
			b[i] = 1
		case 3: // equal blocks, except for the first byte
			b[i] = byte(i%1024) * 3
			if i == 0 {
				b[i] = 0xff
			}
		}
	}
	return b
}

// tthSrc delivers fixed-size reads.
type tthSrc struct {
	data     []byte
	size     int
	withData bool
	zero     bool // every other read is empty
	end      error
	nreads   int
}

func (s *tthSrc) Read(p []byte) (int, error) {
	s.nreads++
	if s.zero && s.nreads%2 == 1 {
		return 0, nil
	}
	n := len(p)
	if s.size > 0 && n > s.size {
		n = s.size
	}
	if n > len(s.data) {
		n = len(s.data)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if len(s.data) == 0 && (n == 0 && len(p) > 0 || s.withData) {
		return n, s.end
	}
	return n, nil
}

func tthCompare(c *C, data []byte, mk func() io.Reader, what string) {
	want := refLeaves(data)
	root := refRoot(want)
	got, err := tiger.TreeHash(mk())
	c.Op()
	c.Assert(err == nil, "TreeHash of %d bytes (%s): %v", len(data), what, err)
	c.Assert(got == tiger.Hash(root), "TreeHash of %d bytes (%s) is %v, the tree hash is %v", len(data), what, got, tiger.Hash(root))
	lv, err := tiger.TreeLeaves(mk())
	c.Op()
	c.Assert(err == nil, "TreeLeaves of %d bytes (%s): %v", len(data), what, err)
	c.Assert(sameLeaves(lv, want), "TreeLeaves of %d bytes (%s): %d leaves, wrong; expected %d", len(data), what, len(lv), len(want))
	r := lv.TreeHash()
	c.Op()
	c.Assert(r == tiger.Hash(root), "root of the %d leaves of %d bytes (%s) is %v, the tree hash is %v", len(lv), len(data), what, r, tiger.Hash(root))
	c.Assert(sameLeaves(lv, want), "computing the root changed the leaves (%d bytes)", len(data))
	c.Assert(lv.TreeHash() == r, "the root of the same leaves differs the second time")
	c.Checked()
}

func init() {
	register("C20", []string{
		"the raw Tiger function of the library's dependency (github.com/cxmcc/tiger) is the reference for single blocks; published vectors are checked too",
		"contents up to the bound; read sizes from the listed sets",
	}, func(thorough bool) []S {
		var sizes []int
		top := 8000
		if thorough {
			top = 20000
		}
		for n := 0; n <= top; n++ {
			sizes = append(sizes, n)
		}
		blocks := 300
		if thorough {
			blocks = 1100
		}
		for b := top/1024 + 1; b <= blocks; b++ {
			for _, d := range []int{-1, 0, 1, 512} {
				sizes = append(sizes, b*1024+d)
			}
		}
		modes := []int{0, 1, 2, 1023, 1024, 1025, 700, 4096}
		all := S{"sizes", fmt.Sprintf("every size 0..%d and block boundaries up to %d blocks x read sizes %v (0: as asked) x end with data or after it x empty reads", top, blocks, modes), func(c *C) {
			n := sizes[c.Choose(len(sizes))]
			m := c.Choose(len(modes))
			size := modes[m]
			if n > 20000 && size > 0 && size < 700 || n > 200000 && size != 0 {
				c.Skip()
			}
			v := c.Choose(4)
			data := tthContent(0, n)
			tthCompare(c, data, func() io.Reader {
				return &tthSrc{data: data, size: size, withData: v&1 != 0, zero: v&2 != 0, end: io.EOF}
			}, fmt.Sprintf("reads of %d, variant %d", size, v))
			c.StateS(fmt.Sprint(n, m, v))
		}}
		content := S{"content", "contents of zeros, ones and equal blocks at every size up to 8 blocks around the boundaries", func(c *C) {
			b := c.Choose(9)
			n := b*1024 + []int{0, 1, 2, 63, 64, 65, 1022, 1023}[c.Choose(8)]
			k := 1 + c.Choose(3)
			data := tthContent(k, n)
			tthCompare(c, data, func() io.Reader { return bytes.NewReader(data) }, fmt.Sprintf("content %d", k))
			c.StateS(fmt.Sprint(n, k))
		}}
		nl := 1500
		if thorough {
			nl = 3000
		}
		leaves := S{"leaves", fmt.Sprintf("leaf lists of every length 1..%d, also as parts of longer lists", nl), func(c *C) {
			n := 1 + c.Choose(nl)
			spare := c.Choose(3)
			full := make(tiger.Leaves, n+spare)
			ref := make([][24]byte, n+spare)
			for i := range full {
				ref[i] = refTiger([]byte{0, byte(i), byte(i >> 8)})
				full[i] = ref[i]
			}
			got := full[:n].TreeHash()
			c.Op()
			c.Checked()
			want := refRoot(ref[:n])
			c.Assert(got == tiger.Hash(want), "root of %d leaves is %v, want %v", n, got, tiger.Hash(want))
			c.Assert(sameLeaves(full, ref), "computing the root of %d leaves changed the list", n)
			c.StateS(fmt.Sprint(n))
		}}
		k := 6
		if thorough {
			k = 8
		}
		fsizes := []int{0, 1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 3073}
		frag := S{"fragments", fmt.Sprintf("sizes %v x every sequence of the first %d reads of 0, 1, 2, 511, 1023, all-1 or all bytes asked for, x end with data", fsizes, k), func(c *C) {
			n := fsizes[c.Choose(len(fsizes))]
			wd := c.Bool()
			data := tthContent(0, n)
			// the sequence is chosen once and used for every call
			seq := make([]int, 0, k)
			pos := 0
			for len(seq) < k && pos < n {
				i := c.Choose(7)
				seq = append(seq, i)
				pos += []int{0, 1, 2, 511, 1023, 1, 1}[i]
			}
			tthCompare(c, data, func() io.Reader { return &seqSrc{data: data, seq: seq, withData: wd} }, fmt.Sprintf("reads %v", seq))
			c.StateS(fmt.Sprint(n, wd, seq))
		}}
		errs := []error{errBoom, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe}
		var kinds []error
		for _, e := range errKinds {
			if !errors.Is(e, io.EOF) {
				kinds = append(kinds, e)
			}
		}
		efail := 3100
		if thorough {
			efail = 5200
		}
		fail := S{"errors", fmt.Sprintf("a source failing after 0..%d bytes with one of 4 errors (7 sizes: with one of 18), together with data or after it, read sizes as asked, 1, 1000 or 1024", efail), func(c *C) {
			var n int
			var e error
			if c.Bool() {
				n = pickInt(c, 0, 1, 1023, 1024, 1025, 2048, 3000)
				e = kinds[c.Choose(len(kinds))]
			} else {
				n = c.Choose(efail + 1)
				e = errs[c.Choose(len(errs))]
			}
			wd := c.Bool()
			size := []int{0, 1024, 1000, 1}[c.Choose(4)]
			data := tthContent(0, n)
			root, err := tiger.TreeHash(&tthSrc{data: data, size: size, withData: wd, end: e})
			c.Op()
			c.Checked()
			c.Assert(errors.Is(err, e), "a source failing with %v after %d bytes: TreeHash returns %v, %v", e, n, root, err)
			c.Assert(root.IsZero(), "a source failing with %v after %d bytes: TreeHash fabricates %v", e, n, root)
			lv, err := tiger.TreeLeaves(&tthSrc{data: data, size: size, withData: wd, end: e})
			c.Op()
			c.Assert(errors.Is(err, e), "a source failing with %v after %d bytes: TreeLeaves returns %d leaves, %v", e, n, len(lv), err)
			want := refLeaves(data)
			c.Assert(len(lv) <= n/1024 && sameLeaves(lv, want[:len(lv)]), "a source failing after %d bytes: TreeLeaves fabricates leaves", n)
			c.StateS(fmt.Sprint(n, e, wd, size))
		}}
		hlen := 9
		if thorough {
			hlen = 12
		}
		hashing := S{"hasher", fmt.Sprintf("every split into writes of %d x 23 bytes, sums taken in between, reset and reused; every length 0..300 of HashBytes", hlen), func(c *C) {
			if c.Bool() {
				n := c.Choose(301)
				data := tthContent(c.Choose(2), n)
				keep := append([]byte{}, data...)
				c.Assert(tiger.HashBytes(data) == tiger.Hash(refTiger(data)), "HashBytes of %d bytes is wrong", n)
				c.Assert(bytes.Equal(data, keep), "HashBytes changed its argument")
				c.Op()
				c.Checked()
				return
			}
			data := tthContent(0, hlen*23)
			h := tiger.New()
			c.Assert(h.Size() == 24 && h.BlockSize() == 64 && tiger.Size == 24 && tiger.BlockSize == 64 && tiger.Base32Size == 39, "sizes are wrong")
			if c.Bool() {
				h.Write([]byte("something else"))
				h.Sum(nil)
				h.Reset()
			}
			pos := 0
			for pos < len(data) {
				n := 23 * (1 + c.Choose((len(data)-pos)/23))
				m, err := h.Write(data[pos : pos+n])
				c.Op()
				c.Assert(m == n && err == nil, "Write: %d, %v", m, err)
				pos += n
				pre := []byte{1, 2, 3}
				got := h.Sum(pre)
				want := refTiger(data[:pos])
				c.Assert(bytes.Equal(got, append([]byte{1, 2, 3}, want[:]...)), "hash of the first %d bytes is wrong", pos)
			}
			c.Checked()
		}}
		vect := S{"vectors", "published hashes", func(c *C) {
			v := []struct {
				n    int
				root string
			}{{0, "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ"}, {1, "VK54ZIEEVTWNAUI5D5RDFIL37LX2IQNSTAXFKSA"}, {1024, "L66Q4YVNAFWVS23X2HJIRA5ZJ7WXR3F26RSASFA"}}[c.Choose(3)]
			for i := 0; i < 2; i++ {
				b := make([]byte, v.n)
				if v.n == 1024 {
					for j := range b {
						b[j] = 'A'
					}
				}
				got, err := tiger.TreeHash(bytes.NewReader(b))
				c.Op()
				c.Checked()
				c.Assert(err == nil && got.String() == v.root, "the tree hash of the vector of %d bytes is %v, %v, published %s", v.n, got, err, v.root)
			}
		}}
		return []S{vect, all, content, leaves, frag, fail, hashing}
	})
}

// seqSrc follows a fixed sequence of read sizes, then delivers what is asked.
type seqSrc struct {
	data     []byte
	seq      []int
	withData bool
}

func (s *seqSrc) Read(p []byte) (int, error) {
	n := len(p)
	if len(s.seq) > 0 {
		i := s.seq[0]
		s.seq = s.seq[1:]
		switch i {
		case 5:
			if n > 1 {
				n--
			}
		case 6:
		default:
			if k := []int{0, 1, 2, 511, 1023}[i]; k < n {
				n = k
			}
			if n == 0 {
				return 0, nil
			}
		}
	}
	if n > len(s.data) {
		n = len(s.data)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if len(s.data) == 0 && (n == 0 && len(p) > 0 || s.withData) {
		return n, io.EOF
	}
	return n, nil
}
