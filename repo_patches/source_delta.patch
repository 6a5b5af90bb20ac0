From 29073d22c91961ed2c722bc61d34fc352286de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 01/64] fix: lineproto: do not crash on an empty read while
 inflating

---
 lineproto/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 153828a..3321951 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -75,7 +75,7 @@ func (r *bufReader) peek() error {
 }
 
 func (r *bufReader) ReadByte() (byte, error) {
-	if r.off >= len(r.buf) {
+	for r.off >= len(r.buf) {
 		if err := r.peek(); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From a6e70fd02bc8745e211f3469fc5fd1bc0560e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 02/64] fix: lineproto: enforce the line limit when a line
 arrives in one piece

---
 lineproto/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 3321951..fd58ade 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -206,6 +206,8 @@ read:
 		r.line = append(r.line, pref...)
 		if err != nil {
 			return r.line, err
+		} else if r.maxLine > 0 && len(r.line) > r.maxLine {
+			return nil, errBufferExhausted
 		} else if more {
 			continue
 		}
-- 
2.43.0


From bccb3db98a80cefc8722dd3f360055205746deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 03/64] fix: lineproto: do not treat huge binary sections as
 empty

---
 lineproto/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index fd58ade..c5dc0f7 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 )
 
 const (
@@ -287,6 +288,9 @@ func (r *Reader) Binary(sz uint64) (io.ReadCloser, error) {
 	if r.original == nil {
 		return nil, errReaderClosed
 	}
+	if sz > math.MaxInt64 {
+		sz = math.MaxInt64 // int64 below would become negative
+	}
 	return &binaryReader{r: io.LimitReader(r, int64(sz))}, nil
 }
 
-- 
2.43.0


From a1330c5c525c52c6267ea02633493944c774aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 04/64] fix: lineproto: stay uncompressed when the compression
 level is refused

---
 lineproto/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 6be1d9b..3966540 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -102,6 +102,7 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	if w.zlibW == nil || w.zlibLvl != lvl {
 		z, err := zlib.NewWriterLevel(w.w, lvl)
 		if err != nil {
+			w.zlibOn = false // still writing uncompressed
 			return err
 		}
 		w.zlibW = z
-- 
2.43.0


From c1411de1c16b4fd8fda9bba9a92e9a19ad0e155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 05/64] fix: lineproto: remember errors of raw writes

---
 lineproto/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 3966540..70294c2 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -177,7 +177,11 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
-	return w.cur.Write(p)
+	n, err := w.cur.Write(p)
+	if err != nil {
+		w.setError(err)
+	}
+	return n, err
 }
 
 // WriteLine writes a single protocol message.
-- 
2.43.0


From 35c1ab49fb4e2a37ba944e4b6bd675af8a741a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 06/64] fix: lineproto: allow closing a writer twice

---
 lineproto/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 70294c2..b2f1768 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -65,6 +65,9 @@ func (w *Writer) Err() error {
 
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
+	if w.bw == nil {
+		return nil // already closed
+	}
 	last := w.bw.Flush()
 	if w.err == nil {
 		w.err = errWriterClosed
-- 
2.43.0


From bef2f17917200d236b1c3c61684bf21df0856a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 07/64] fix: lineproto: arm the write deadline for raw writes,
 DisableZlib and Close

---
 lineproto/writer.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index b2f1768..cf50ce7 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -5,6 +5,7 @@ import (
 	"compress/zlib"
 	"errors"
 	"io"
+	"io/ioutil"
 )
 
 var (
@@ -68,6 +69,17 @@ func (w *Writer) Close() error {
 	if w.bw == nil {
 		return nil // already closed
 	}
+	var errTimeout error
+	if w.Timeout != nil {
+		errTimeout = w.Timeout(true)
+		if errTimeout != nil {
+			// cannot write safely; drop everything that is still buffered
+			w.bw.Reset(ioutil.Discard)
+			w.zlibOn = false
+		} else {
+			defer w.Timeout(false)
+		}
+	}
 	last := w.bw.Flush()
 	if w.err == nil {
 		w.err = errWriterClosed
@@ -83,6 +95,9 @@ func (w *Writer) Close() error {
 	w.cur = nil
 	w.w = nil
 	w.onLine = nil
+	if errTimeout != nil {
+		return errTimeout
+	}
 	return last
 }
 
@@ -125,6 +140,14 @@ func (w *Writer) DisableZlib() error {
 	} else if !w.zlibOn {
 		return errZlibNotActive
 	}
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return err
+		}
+		defer w.Timeout(false)
+	}
 	err := w.bw.Flush()
 	if err != nil {
 		w.setError(err)
@@ -180,6 +203,14 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return 0, err
+		}
+		defer w.Timeout(false)
+	}
 	n, err := w.cur.Write(p)
 	if err != nil {
 		w.setError(err)
-- 
2.43.0


From 67386cf0ca9a9d58a02c682e03b5b46751169d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 08/64] fix: lineproto: do not crash when a line hook closes
 the reader or the writer

---
 lineproto/reader.go | 3 +++
 lineproto/writer.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index c5dc0f7..75b3706 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -194,6 +194,9 @@ func (r *Reader) ReadLine() ([]byte, error) {
 
 read:
 	for {
+		if r.original == nil {
+			return nil, errReaderClosed // closed by the hook
+		}
 		if r.maxLine > 0 && len(r.line) >= r.maxLine {
 			return nil, errBufferExhausted
 		}
diff --git a/lineproto/writer.go b/lineproto/writer.go
index cf50ce7..f120299 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -231,6 +231,9 @@ func (w *Writer) WriteLine(data []byte) error {
 			return nil
 		}
 	}
+	if w.bw == nil {
+		return w.err // closed by the hook
+	}
 	if w.Timeout != nil {
 		err := w.Timeout(true)
 		if err != nil {
-- 
2.43.0


From be6622216761b93a8b3eef22ca2dcfbea53401ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 09/64] fix: nmdc: do not announce compression that is then
 refused

---
 lineproto/writer.go | 14 ++++++++++++++
 nmdc/writer.go      |  4 ++++
 2 files changed, 18 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index f120299..b34c408 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"compress/zlib"
 	"errors"
+	"fmt"
 	"io"
 	"io/ioutil"
 )
@@ -106,6 +107,19 @@ func (w *Writer) EnableZlib() error {
 	return w.EnableZlibLevel(zlib.DefaultCompression)
 }
 
+// CheckZlibLevel returns an error if EnableZlibLevel would refuse the given compression level
+// in the current state. It has no side effects.
+func (w *Writer) CheckZlibLevel(lvl int) error {
+	if w.err != nil {
+		return w.err
+	} else if w.zlibOn {
+		return errZlibAlreadyActive
+	} else if lvl < zlib.HuffmanOnly || lvl > zlib.BestCompression {
+		return fmt.Errorf("lineproto: invalid compression level: %d", lvl)
+	}
+	return nil
+}
+
 // EnableZlib activates zlib deflating with a given compression level.
 func (w *Writer) EnableZlibLevel(lvl int) error {
 	if w.err != nil {
diff --git a/nmdc/writer.go b/nmdc/writer.go
index 0f9d1b7..b19296c 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -90,6 +90,10 @@ func (w *Writer) ZOn() error {
 
 // ZOnLevel enables compression with a given level on this writer.
 func (w *Writer) ZOnLevel(lvl int) error {
+	// the command must not be sent if the compression will not follow
+	if err := w.CheckZlibLevel(lvl); err != nil {
+		return err
+	}
 	if err := w.WriteLine([]byte("$" + zonName + "|")); err != nil {
 		return err
 	}
-- 
2.43.0


From 86896b7c365e2d095f3e85497a1fd164b7a404a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 10/64] fix: nmdc: encode an empty Supports list

---
 nmdc/extensions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nmdc/extensions.go b/nmdc/extensions.go
index 23bec78..f612eb5 100644
--- a/nmdc/extensions.go
+++ b/nmdc/extensions.go
@@ -43,6 +43,9 @@ func (m *Supports) Intersect(m2 *Supports) Supports {
 }
 
 func (m *Supports) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
+	if len(m.Ext) == 0 {
+		return nil
+	}
 	n := len(m.Ext) - 1
 	for _, ext := range m.Ext {
 		n += len(ext)
-- 
2.43.0


From 4cbb6ecff4c56faf647181785c458ad84b7d3821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 11/64] fix: nmdc: refuse to encode an empty chat message

---
 nmdc/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/message.go b/nmdc/message.go
index 851e3f8..92291ab 100644
--- a/nmdc/message.go
+++ b/nmdc/message.go
@@ -2,6 +2,7 @@ package nmdc
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -128,6 +129,9 @@ func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	}
 	if n == buf.Len() {
 		// no payload
+		if m.Type() == "" {
+			return errors.New("cannot encode an empty chat message")
+		}
 		buf.Bytes()[n-1] = Delimiter // ' ' -> '|'
 		return nil
 	}
-- 
2.43.0


From 313fac85295cf04af86b3de6f0b97784745cce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 12/64] fix: nmdc: refuse to encode messages that contain the
 delimiter

---
 nmdc/message.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nmdc/message.go b/nmdc/message.go
index 92291ab..47b6299 100644
--- a/nmdc/message.go
+++ b/nmdc/message.go
@@ -117,6 +117,7 @@ func (m *RawMessage) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
 // MarshalTo encodes NMDC message into a buffer. It will write a command name,
 // a payload and '|' delimiter.
 func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
+	start := buf.Len()
 	if typ := m.Type(); typ != "" {
 		buf.Grow(1 + len(typ) + 2)
 		buf.WriteByte('$')
@@ -127,6 +128,10 @@ func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	if err := m.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
+	if bytes.IndexByte(buf.Bytes()[start:], Delimiter) >= 0 || bytes.IndexByte(buf.Bytes()[start:], 0x00) >= 0 {
+		// must be exactly one line
+		return errors.New("message should not contain delimiters or null characters")
+	}
 	if n == buf.Len() {
 		// no payload
 		if m.Type() == "" {
-- 
2.43.0


From e5e2bc80ad51ed140851c9b970e5a25562fe1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 13/64] fix: nmdc: refuse names that are too long when escaped

---
 nmdc/types.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nmdc/types.go b/nmdc/types.go
index c893cc8..6c6f900 100644
--- a/nmdc/types.go
+++ b/nmdc/types.go
@@ -94,7 +94,15 @@ func (s Name) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 			return err
 		}
 	}
-	return escapeName(buf, str)
+	n := buf.Len()
+	if err := escapeName(buf, str); err != nil {
+		return err
+	}
+	if buf.Len()-n > maxName {
+		// the limit also applies to the escaped form
+		return errors.New("name is too long")
+	}
+	return nil
 }
 
 func (s *Name) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
-- 
2.43.0


From 6be8ceb80c28e5869d0e6075219554b0dd824504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 14/64] fix: nmdc: refuse spaces in ADCGET and ADCSND fields

---
 nmdc/msg_files.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 3bb3432..e7d4b5a 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"strconv"
+	"strings"
 )
 
 func init() {
@@ -27,6 +28,9 @@ func (*ADCGet) Type() string {
 }
 
 func (m *ADCGet) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
+	if strings.IndexByte(string(m.ContentType), ' ') >= 0 || strings.IndexByte(string(m.Identifier), ' ') >= 0 {
+		return errors.New("ADCGet: content type and identifier should not contain spaces")
+	}
 	if err := m.ContentType.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
@@ -137,6 +141,9 @@ func (*ADCSnd) Type() string {
 }
 
 func (m *ADCSnd) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
+	if strings.IndexByte(string(m.ContentType), ' ') >= 0 || strings.IndexByte(string(m.Identifier), ' ') >= 0 {
+		return errors.New("ADCSnd: content type and identifier should not contain spaces")
+	}
 	if err := m.ContentType.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
-- 
2.43.0


From eeda2ffa2180c99f9e6bbb22c6df38824d1874df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 15/64] fix: nmdc: refuse to encode ADCGET with a negative
 length

---
 nmdc/msg_files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index e7d4b5a..c837b0a 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -28,6 +28,9 @@ func (*ADCGet) Type() string {
 }
 
 func (m *ADCGet) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
+	if m.Length < -1 {
+		return errors.New("ADCGet: negative length")
+	}
 	if strings.IndexByte(string(m.ContentType), ' ') >= 0 || strings.IndexByte(string(m.Identifier), ' ') >= 0 {
 		return errors.New("ADCGet: content type and identifier should not contain spaces")
 	}
-- 
2.43.0


From 8af57fd5ec3a6982444493ebf43febf7b35dca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 16/64] fix: nmdc: refuse to encode Direction numbers outside
 the range

---
 nmdc/msg_files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index c837b0a..0053ddf 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -226,6 +226,9 @@ func (*Direction) Type() string {
 }
 
 func (m *Direction) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
+	if m.Number < 1 || m.Number > 32767 {
+		return errors.New("Direction: number outside range")
+	}
 	if m.Upload {
 		buf.Write([]byte("Upload"))
 	} else {
-- 
2.43.0


From ac3ab769a506aad529ccd63b58decdaaccf6655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 17/64] fix: nmdc: decode empty UserIP and FailOver lists as
 empty

---
 nmdc/msg_hub.go       | 4 ++++
 nmdc/msg_user_list.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/nmdc/msg_hub.go b/nmdc/msg_hub.go
index 935f1cd..913947d 100644
--- a/nmdc/msg_hub.go
+++ b/nmdc/msg_hub.go
@@ -96,6 +96,10 @@ func (m *FailOver) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *FailOver) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
+	if len(data) == 0 {
+		m.Host = nil
+		return nil
+	}
 	hosts := bytes.Split(data, []byte(","))
 	m.Host = make([]string, 0, len(hosts))
 	for _, host := range hosts {
diff --git a/nmdc/msg_user_list.go b/nmdc/msg_user_list.go
index 85b0306..1f0ed26 100644
--- a/nmdc/msg_user_list.go
+++ b/nmdc/msg_user_list.go
@@ -110,6 +110,10 @@ func (m *UserIP) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 func (m *UserIP) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	data = bytes.TrimSuffix(data, []byte("\r"))
 	data = bytes.TrimSuffix(data, []byte("$$"))
+	if len(data) == 0 {
+		m.List = nil
+		return nil
+	}
 	sub := bytes.Split(data, []byte("$$"))
 	m.List = make([]UserAddress, 0, len(sub))
 	for _, s := range sub {
-- 
2.43.0


From 6733356bd49536ddd115cc2e2d2f05d57343fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 18/64] fix: nmdc: encode user commands so that they can be
 decoded

---
 nmdc/msg_chat.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 25112d9..863a179 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -266,6 +266,11 @@ func (*UserCommand) Type() string {
 }
 
 func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
+	if m.Typ < 0 || m.Context < 0 {
+		return errors.New("negative type or context in user command")
+	} else if len(m.Path) == 0 && m.Command != "" {
+		return errors.New("user command without a path")
+	}
 	var b [10]byte
 	bi := strconv.AppendUint(b[:0], uint64(m.Typ), 10)
 	bi = append(bi, ' ')
@@ -284,7 +289,7 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 	} else {
 		buf.Write(bi)
 	}
-	if m.Command == "" {
+	if len(m.Path) == 0 {
 		return nil
 	}
 	buf.WriteString(" $")
-- 
2.43.0


From 6206407bff4d3ae7666512ff9e6b347a1f9b6f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 19/64] fix: nmdc: do not keep old field values when decoding
 into a used message

---
 nmdc/msg_chat.go   | 2 ++
 nmdc/msg_ctm.go    | 1 +
 nmdc/msg_errors.go | 2 ++
 nmdc/msg_files.go  | 2 ++
 nmdc/msg_ping.go   | 1 +
 nmdc/msg_search.go | 2 ++
 nmdc/msg_user.go   | 1 +
 7 files changed, 11 insertions(+)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 863a179..f63b0a8 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -49,6 +49,7 @@ func (m *ChatMessage) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ChatMessage{}
 	// <user> message text|
 	// or
 	// message text|
@@ -300,6 +301,7 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = UserCommand{}
 	arr := bytes.SplitN(bytes.TrimSpace(data), []byte(" "), 3)
 	if len(arr) < 2 {
 		return errors.New("invalid user command")
diff --git a/nmdc/msg_ctm.go b/nmdc/msg_ctm.go
index a5711cf..601ad39 100644
--- a/nmdc/msg_ctm.go
+++ b/nmdc/msg_ctm.go
@@ -70,6 +70,7 @@ func (m *ConnectToMe) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ConnectToMe) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ConnectToMe{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid ConnectToMe command")
diff --git a/nmdc/msg_errors.go b/nmdc/msg_errors.go
index b4ca982..f9e3f88 100644
--- a/nmdc/msg_errors.go
+++ b/nmdc/msg_errors.go
@@ -29,6 +29,7 @@ func (m *Failed) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Failed) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Failed{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
@@ -58,6 +59,7 @@ func (m *Error) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Error) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Error{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 0053ddf..223b2e3 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -59,6 +59,7 @@ func (m *ADCGet) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCGet{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCGet: missing separator after field 'ContentType'")
@@ -165,6 +166,7 @@ func (m *ADCSnd) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCSnd{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCSnd: missing separator after field 1")
diff --git a/nmdc/msg_ping.go b/nmdc/msg_ping.go
index cb05964..33da759 100644
--- a/nmdc/msg_ping.go
+++ b/nmdc/msg_ping.go
@@ -108,6 +108,7 @@ func (m *HubINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *HubINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = HubINFO{}
 	fields := bytes.SplitN(data, []byte("$"), 13)
 	for i, field := range fields {
 		switch i {
diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 972e42f..0822004 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -106,6 +106,7 @@ func (m *Search) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Search) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = Search{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid search command")
@@ -289,6 +290,7 @@ func (m *SR) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = SR{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid SR command: missing name")
diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index 8579128..dc8981f 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -193,6 +193,7 @@ func (m *MyINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *MyINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = MyINFO{}
 	const infoPref = "$ALL "
 	if !bytes.HasPrefix(data, []byte(infoPref)) {
 		return errors.New("invalid info command: wrong prefix")
-- 
2.43.0


From 49ccb605c7b4faba6613ff6ee00a0747e3611d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 20/64] fix: nmdc: keep escaped dollar signs in search patterns

---
 nmdc/msg_search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 0822004..2a10b1c 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -193,12 +193,14 @@ func (m *Search) unmarshalString(dec *TextDecoder, data []byte) error {
 			return err
 		}
 	} else {
+		// words are separated by '$', which is escaped if it's a part of the word
+		field = bytes.Replace(field, []byte("$"), []byte(" "), -1)
 		var str String
 		err := str.UnmarshalNMDC(dec, field)
 		if err != nil {
 			return err
 		}
-		m.Pattern = strings.Replace(string(str), "$", " ", -1)
+		m.Pattern = string(str)
 	}
 	return nil
 }
-- 
2.43.0


From 67bf140357d0a83d29b2f2709585e3a25da9d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 21/64] fix: nmdc: decode the path of search results

---
 nmdc/msg_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 2a10b1c..4e8da31 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -363,7 +363,7 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if err := spath.UnmarshalNMDC(dec, path); err != nil {
 		return err
 	}
-	m.Path = strings.Split(string(path), "\\")
+	m.Path = strings.Split(string(spath), "\\")
 
 	i = bytes.IndexByte(slots, '/')
 	if i < 0 {
-- 
2.43.0


From 112e2be3a576a8ce555c2dd7fec024937e3dd9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 22/64] fix: nmdc: allow parentheses in the hub name of search
 results

---
 nmdc/msg_search.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 4e8da31..55321df 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -392,7 +392,12 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 			return err
 		}
 	} else {
-		i = bytes.Index(data, []byte(" ("))
+		// hub name may also contain parentheses
+		end := bytes.IndexByte(data, srSep)
+		if end < 0 {
+			end = len(data)
+		}
+		i = bytes.LastIndex(data[:end], []byte(" ("))
 		if i < 0 {
 			return errors.New("invalid SR command: missing TTH or hub name")
 		}
-- 
2.43.0


From df1dfdd22d27692b8444c63491fabb3c577ea446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 23/64] fix: nmdc: refuse separators in paths and hub names of
 search results

---
 nmdc/msg_search.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 55321df..9c1a3fb 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -249,6 +249,9 @@ func (m *SR) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 		if i != 0 {
 			buf.WriteByte('\\')
 		}
+		if strings.IndexByte(p, srSep) >= 0 {
+			return errors.New("invalid SR command: separator in the path")
+		}
 		if err := String(p).MarshalNMDC(enc, buf); err != nil {
 			return err
 		}
@@ -274,6 +277,9 @@ func (m *SR) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 		buf.Write(b[:])
 	} else {
 		// legacy
+		if strings.IndexByte(m.HubName, srSep) >= 0 || strings.HasPrefix(m.HubName, "TTH:") {
+			return errors.New("invalid SR command: invalid hub name")
+		}
 		if err := String(m.HubName).MarshalNMDC(enc, buf); err != nil {
 			return err
 		}
-- 
2.43.0


From d9dfe4f3001b50c1f7fe80ac7c2b720ee7c44ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 24/64] fix: nmdc: do not confuse files with directories in
 search results

---
 nmdc/msg_search.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 9c1a3fb..8b035ed 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -339,7 +339,14 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		path  []byte
 		slots []byte
 	)
-	if hasSep && i >= 0 {
+	if hasSep {
+		// the name of a file may look like slots; for files there is one more
+		// section (size and slots) before the hub name and address
+		if j := bytes.IndexByte(data, srSep); j >= 0 && !bytes.Contains(data[:j], []byte(" (")) {
+			hasSep = false
+		}
+	}
+	if hasSep && i >= 0 && maybePath[i] == ' ' {
 		// directory result - slots are in the path
 		m.IsDir = true
 		m.Size = 0
-- 
2.43.0


From 4675407c794c6ece5cfea40cc548b2c6c9a2632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 25/64] fix: nmdc: refuse separators as the mode and flag of
 MyINFO

---
 nmdc/msg_user.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index dc8981f..ee3a315 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -119,6 +119,13 @@ func (*MyINFO) Type() string {
 }
 
 func (m *MyINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
+	switch m.Mode {
+	case '$', ',', '<':
+		return errors.New("invalid mode in info command")
+	}
+	if m.Flag == '$' {
+		return errors.New("invalid flag in info command")
+	}
 	buf.WriteString("$ALL ")
 	if err := Name(m.Name).MarshalNMDC(enc, buf); err != nil {
 		return err
-- 
2.43.0


From 75f102e7c04540818822e1db5f998cfaf4323510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 26/64] fix: nmdc: do not let a chat text without a sender name
 its own sender

---
 nmdc/msg_chat.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index f63b0a8..c25aa64 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 )
@@ -41,7 +42,13 @@ func (m *ChatMessage) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 		}
 		buf.WriteString("> ")
 	}
-	err := String(m.Text).MarshalNMDC(enc, buf)
+	text := m.Text
+	if m.Name == "" && strings.HasPrefix(text, "<") {
+		// should not be decoded as a name
+		buf.WriteString("&lt;")
+		text = text[1:]
+	}
+	err := String(text).MarshalNMDC(enc, buf)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 61d3cd91abacbd11cd7780f00a7c3cc818979cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 27/64] fix: nmdc: refuse escaped spaces in names

---
 nmdc/types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nmdc/types.go b/nmdc/types.go
index 6c6f900..4634468 100644
--- a/nmdc/types.go
+++ b/nmdc/types.go
@@ -111,7 +111,12 @@ func (s *Name) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	} else if bytes.ContainsAny(data, invalidCharsName) {
 		return fmt.Errorf("invalid characters in name: %q", string(data))
 	}
+	spaces := bytes.Count(data, []byte(" "))
 	data = UnescapeBytes(data)
+	if bytes.Count(data, []byte(" ")) != spaces {
+		// spaces separate names from other fields and cannot be escaped
+		return errors.New("escaped spaces in name")
+	}
 	if dec != nil {
 		var err error
 		data, err = dec.Bytes(data)
-- 
2.43.0


From 30adc9156420f1226721ab0ae2cf19fa63deb26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 28/64] fix: nmdc: refuse escaped separators in user commands

---
 nmdc/msg_chat.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index c25aa64..7a22d5a 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -351,6 +351,10 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		if err != nil {
 			return errors.New("invalid path user command")
 		}
+		if strings.IndexByte(string(s), '\\') >= 0 || strings.HasSuffix(string(s), " ") && p[len(p)-1] != ' ' {
+			// separators cannot be escaped
+			return errors.New("escaped separators in the path of user command")
+		}
 		m.Path = append(m.Path, string(s))
 	}
 
@@ -358,6 +362,7 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if err := s.UnmarshalNMDC(dec, val[i+1:]); err != nil {
 		return err
 	}
-	m.Command = string(s)
+	// the same as above, but for escaped characters
+	m.Command = strings.TrimRightFunc(string(s), unicode.IsSpace)
 	return nil
 }
-- 
2.43.0


From ac2bc20b73e9b8eb7a6f6423b622d597da4ea678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 29/64] fix: nmdc: refuse negative user command types

---
 nmdc/msg_chat.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 7a22d5a..ec212ed 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -318,6 +318,9 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if err != nil {
 		return fmt.Errorf("invalid type in user command: %q", string(arr[0]))
 	}
+	if t < 0 {
+		return fmt.Errorf("invalid type in user command: %q", string(arr[0]))
+	}
 	m.Typ = UCmdType(t)
 
 	if i := bytes.IndexFunc(arr[1], func(r rune) bool {
-- 
2.43.0


From b28ba316d589f79e7aae1a4ac60b92ae91539dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 30/64] fix: nmdc: ignore spaces after the software in HubINFO

---
 nmdc/msg_ping.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_ping.go b/nmdc/msg_ping.go
index 33da759..e3a5986 100644
--- a/nmdc/msg_ping.go
+++ b/nmdc/msg_ping.go
@@ -151,7 +151,7 @@ func (m *HubINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 			}
 			m.I4 = i4
 		case 7:
-			soft := string(field)
+			soft := strings.TrimRight(string(field), " ")
 			m.Soft.Name = soft
 			if i := strings.LastIndexByte(soft, ' '); i >= 0 {
 				m.Soft.Name = soft[:i]
-- 
2.43.0


From db49a704d2d5803cf61f6361c77fc41f37a1e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 31/64] fix: nmdc: only change the case of letters in tag names

---
 nmdc/msg_user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index ee3a315..1d32ece 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -342,7 +342,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 			continue
 		}
 		ckey := bkey[0]
-		if ckey > 'Z' {
+		if ckey >= 'a' && ckey <= 'z' {
 			ckey -= 'a' - 'A'
 		}
 		switch ckey {
-- 
2.43.0


From bfc0db94e29643b36a10a08ec0561df3b1a8d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 32/64] fix: nmdc: decode an empty mode in the tag as unknown

---
 nmdc/msg_user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index 1d32ece..5bc98b6 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -351,6 +351,9 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 		case 'M':
 			if len(val) == 1 {
 				m.Mode = UserMode(val[0])
+				if m.Mode == ' ' {
+					m.Mode = UserModeUnknown
+				}
 			} else {
 				m.Mode = UserModeUnknown
 			}
-- 
2.43.0


From 1f713ec1ee2a1694b6e9a5d2bd57488ba6fdd8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 33/64] fix: nmdc: trim spaces before empty path elements of
 user commands

---
 nmdc/msg_chat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index ec212ed..6c49918 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -342,7 +342,7 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if i < 1 {
 		return fmt.Errorf("invalid raw user command: %q", string(data))
 	}
-	path := bytes.TrimRight(val[:i], " ")
+	path := bytes.TrimRight(val[:i], " \\") // also skips empty elements
 	sub := bytes.Split(path, []byte("\\"))
 	m.Path = make([]string, 0, len(sub))
 	for _, p := range sub {
-- 
2.43.0


From 9a8584260e13ae5af4ef09d7babcd2c64a4f5172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 34/64] fix: tiger: check the size of base32 text before
 decoding

---
 tiger/tiger.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tiger/tiger.go b/tiger/tiger.go
index 79309ab..eb37ae0 100644
--- a/tiger/tiger.go
+++ b/tiger/tiger.go
@@ -80,18 +80,27 @@ func (h Hash) MarshalBase32(buf []byte) error {
 
 // UnmarshalBase32 decodes the hash from a given buffer.
 func (h *Hash) UnmarshalBase32(buf []byte) error {
-	n, err := base32Enc.Decode((*h)[:], buf)
+	if len(buf) != Base32Size {
+		return fmt.Errorf("wrong base32 text size: %d vs %d", len(buf), Base32Size)
+	}
+	var v Hash // keep the old value in case of an error
+	n, err := base32Enc.Decode(v[:], buf)
 	if err != nil {
 		return err
 	}
 	if n != Size {
 		return fmt.Errorf("wrong base32 encoded size: %d vs %d", n, Size)
 	}
+	*h = v
 	return nil
 }
 
 // FromBase32 parses hash from base32 encoding.
 func (h *Hash) FromBase32(s string) error {
+	if len(s) != Base32Size {
+		// decoder ignores line breaks
+		return fmt.Errorf("wrong base32 text size: %d vs %d", len(s), Base32Size)
+	}
 	b, err := base32Enc.DecodeString(s)
 	if err != nil {
 		return err
-- 
2.43.0


From 9337e078924f6ab65c076bc021f4b830feaf8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 35/64] fix: tiger: always hash full blocks

---
 tiger/tth.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tiger/tth.go b/tiger/tth.go
index 2ce7abe..db94d3f 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -8,13 +8,23 @@ const tthBlock = 1024
 // the single parts of a certain file.
 type Leaves []Hash
 
+// readBlock reads until the buffer is full or the reader returns an error.
+func readBlock(r io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var nr int
+		nr, err = r.Read(buf[n:])
+		n += nr
+	}
+	return n, err
+}
+
 // TreeLeaves computes the TTH leaves of a reader.
 func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 	buf := make([]byte, tthBlock+1)
 	var n int
 
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
@@ -62,7 +72,7 @@ func TreeHash(r io.Reader) (root Hash, err error) {
 	)
 	buf := make([]byte, tthBlock+1)
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
-- 
2.43.0


From 7ab755a42607461a3e662dba63f741f236ce0bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 36/64] fix: nmdc: use the whole name when a chat line ends
 with it

---
 nmdc/msg_chat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 6c49918..8639c0d 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -85,7 +85,7 @@ func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 				break
 			}
 			if base+j == len(data)-1 {
-				i = j
+				i = base + j
 				off = 1
 				break
 			}
-- 
2.43.0


From 6169e86f5717db90e3b195ff1d35a30690e9ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 37/64] fix: nmdc: refuse a chat line with an unterminated
 empty name

---
 nmdc/msg_chat.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 8639c0d..df9c1df 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -67,6 +67,11 @@ func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 			off  = 0 // space between the name and the message
 			base = 0 // index of the previous '>' character +1
 		)
+		if len(data) == 0 {
+			return &ErrProtocolViolation{
+				Err: errors.New("name in chat message should have a closing token"),
+			}
+		}
 		// found next '>' character and check that the next one is a whitespace
 		for base < len(data) {
 			j := bytes.IndexAny(data[base:], ">\r\n")
-- 
2.43.0


From 4a56fb4bf013551a804b1c0be8ea64b904bd9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 38/64] fix: nmdc: do not crash on short locks

---
 nmdc/msg_lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_lock.go b/nmdc/msg_lock.go
index 3ba3587..6d2dfaf 100644
--- a/nmdc/msg_lock.go
+++ b/nmdc/msg_lock.go
@@ -108,6 +108,10 @@ func (m *Lock) CustomKey(magic byte, full bool) *Key {
 	lock := []byte(m.LockString(full))
 
 	n := len(lock)
+	if n < 2 {
+		// not enough data for the key
+		return &Key{}
+	}
 	key := make([]byte, n)
 
 	key[0] = byte((lock[0] ^ lock[n-1] ^ lock[n-2] ^ magic) & 0xFF)
-- 
2.43.0


From 5e0d8bb92f084f4e8d0369a1fdaede8fc1db94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 39/64] fix: nmdc: only skip the message dropped by a writer
 hook

---
 nmdc/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nmdc/writer.go b/nmdc/writer.go
index b19296c..88d7fe1 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -65,10 +65,13 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 		return err
 	}
 	enc := w.Encoder()
+next:
 	for _, m := range msg {
 		for _, fnc := range w.onMessage {
-			if ok, err := fnc(m); err != nil || !ok {
+			if ok, err := fnc(m); err != nil {
 				return err
+			} else if !ok {
+				continue next // skip only this message
 			}
 		}
 		w.mbuf.Reset()
-- 
2.43.0


From 8211c858e74f8d7e097b06b1b91bb73b941e82f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 40/64] fix: nmdc: forget dropped and skipped messages

---
 nmdc/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 5cc36e3..a96346e 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -146,9 +146,10 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 }
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
-	dec := r.Decoder()
+	orig := *ptr
 read:
 	for {
+		*ptr = orig // forget the message that was dropped or skipped
 		line, err := r.ReadLine()
 		if err != nil {
 			return err
@@ -288,6 +289,7 @@ read:
 				}
 			}
 		}
+		dec := r.Decoder()
 		err = out.UnmarshalNMDC(dec, args)
 		if r.OnUnknownEncoding != nil {
 			if e, ok := err.(*errUnknownEncoding); ok {
-- 
2.43.0


From b50df20f1bdc297041da083ba114579c5315f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:44 +0000
Subject: [PATCH 41/64] fix: nmdc: accept any message into a raw message

---
 nmdc/reader.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index a96346e..f52bc8d 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -210,7 +210,11 @@ read:
 			if len(allowed) != 0 {
 				ok := false
 				for _, m := range allowed {
-					if _, raw := m.(*RawMessage); raw || m.Type() == typ {
+					raw, isRaw := m.(*RawMessage)
+					if isRaw {
+						raw.Typ = typ // accepts any type
+					}
+					if m.Type() == typ {
 						ok = true
 						out = m
 						*ptr = m
@@ -258,9 +262,11 @@ read:
 			if len(allowed) != 0 {
 				ok := false
 				for _, m := range allowed {
-					_, raw := m.(*RawMessage)
-					_, chat := m.(*ChatMessage)
-					if raw || chat {
+					raw, isRaw := m.(*RawMessage)
+					if isRaw {
+						raw.Typ = "" // accepts any type
+					}
+					if _, chat := m.(*ChatMessage); isRaw || chat {
 						ok = true
 						out = m
 						*ptr = m
@@ -279,7 +285,7 @@ read:
 			if out == nil {
 				out = &ChatMessage{}
 				*ptr = out
-			} else if _, ok := out.(*ChatMessage); !ok {
+			} else if _, ok := out.(*ChatMessage); !ok && len(allowed) == 0 {
 				return &ErrUnexpectedCommand{
 					Expected: out.Type(),
 					Received: &RawMessage{
-- 
2.43.0


From a6b124166dc4f1bf8581f85c89892d00a2a809e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 42/64] fix: nmdc: keep the payload of unexpected messages

---
 nmdc/reader.go | 10 +++++-----
 nmdc/utils.go  |  4 ++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index f52bc8d..e724e1f 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -225,7 +225,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Typ: typ, Data: args,
+							Typ: typ, Data: copyBytes(args),
 						},
 					}
 				}
@@ -238,14 +238,14 @@ read:
 				return &ErrUnexpectedCommand{
 					Expected: "", // chat
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: copyBytes(args),
 					},
 				}
 			} else if out.Type() != typ {
 				return &ErrUnexpectedCommand{
 					Expected: out.Type(),
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: copyBytes(args),
 					},
 				}
 			}
@@ -277,7 +277,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Data: args,
+							Data: copyBytes(args),
 						},
 					}
 				}
@@ -290,7 +290,7 @@ read:
 					Expected: out.Type(),
 					Received: &RawMessage{
 						// chat
-						Data: args,
+						Data: copyBytes(args),
 					},
 				}
 			}
diff --git a/nmdc/utils.go b/nmdc/utils.go
index 4a52d63..d7018b6 100644
--- a/nmdc/utils.go
+++ b/nmdc/utils.go
@@ -29,6 +29,10 @@ func isASCII(p []byte) bool {
 	return true
 }
 
+func copyBytes(p []byte) []byte {
+	return append([]byte{}, p...)
+}
+
 func trimSpace(s []byte) []byte {
 	for i := 0; i < len(s); i++ {
 		if s[i] != ' ' {
-- 
2.43.0


From 5a272bcd7dcc5a35f7d3360280f141a9209e31e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 43/64] fix: nmdc: report unknown encoding of file names and
 user command paths

---
 nmdc/msg_chat.go  | 4 +++-
 nmdc/msg_files.go | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index df9c1df..04555d5 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -356,7 +356,9 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		}
 		var s String
 		err := s.UnmarshalNMDC(dec, p)
-		if err != nil {
+		if _, ok := err.(*errUnknownEncoding); ok {
+			return err
+		} else if err != nil {
 			return errors.New("invalid path user command")
 		}
 		if strings.IndexByte(string(s), '\\') >= 0 || strings.HasSuffix(string(s), " ") && p[len(p)-1] != ' ' {
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 223b2e3..360f2ec 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -75,6 +75,9 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
+		if _, ok := err.(*errUnknownEncoding); ok {
+			return err
+		}
 		return errors.New("ADCGet: unable to parse field 2")
 	}
 
@@ -182,6 +185,9 @@ func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
+		if _, ok := err.(*errUnknownEncoding); ok {
+			return err
+		}
 		return errors.New("ADCSnd: unable to parse field 2")
 	}
 
-- 
2.43.0


From 30df20d8e4da7b3f698c6dbde1624526cd29f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 44/64] fix: nmdc: only trim ASCII spaces of encoded user
 commands

---
 nmdc/msg_chat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 04555d5..4425824 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -314,7 +314,7 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 
 func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	*m = UserCommand{}
-	arr := bytes.SplitN(bytes.TrimSpace(data), []byte(" "), 3)
+	arr := bytes.SplitN(bytes.Trim(data, " \t\r\n\v\f"), []byte(" "), 3)
 	if len(arr) < 2 {
 		return errors.New("invalid user command")
 	}
-- 
2.43.0


From 27b95ad226f62663128c61549a0e4e3e783d1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 45/64] fix: nmdc: refuse an ADCGET length that is out of range

---
 nmdc/msg_files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 360f2ec..556321b 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -3,6 +3,7 @@ package nmdc
 import (
 	"bytes"
 	"errors"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -103,7 +104,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		m.Length = -1
 	} else {
 		lengthNum, err := parseUin64Trim(length)
-		if err != nil {
+		if err != nil || lengthNum > math.MaxInt64 {
 			return errors.New("ADCGet: unable to parse field 'Lenght'")
 		}
 		m.Length = int64(lengthNum)
-- 
2.43.0


From d48f5360140df5686ab4789818aaa17dbcd5d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 46/64] fix: adc: refuse messages with missing positional
 fields

---
 adc/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adc/marshal.go b/adc/marshal.go
index b30e546..7c1cc01 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -117,6 +117,9 @@ func Unmarshal(s []byte, o interface{}) error {
 		if tag == "" || tag == "-" {
 			continue
 		} else if tag == "#" {
+			if len(sub) == 0 {
+				return fmt.Errorf("missing field %s", fld.Name)
+			}
 			v := sub[0]
 			sub = sub[1:]
 			if err := unmarshalValue(v, rv.Field(i)); err != nil {
-- 
2.43.0


From 1797c6a4ca47961094660149d568b853c60add38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 47/64] fix: adc: do not use the delimiter as a part of an
 identifier

---
 adc/packets.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index e451eb5..746a5a3 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -180,7 +180,9 @@ func (p *InfoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *InfoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) != 0 && data[len(data)-1] != lineDelim {
+	if len(data) < 1 {
+		return errors.New("short info command")
+	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
 	}
 	data = data[:len(data)-1]
@@ -313,7 +315,7 @@ func (p *BroadcastPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *BroadcastPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return errors.New("short broadcast command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -408,7 +410,7 @@ func (p *DirectPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *DirectPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short direct command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -504,7 +506,7 @@ func (p *EchoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *EchoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short echo command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -673,7 +675,7 @@ func (p *FeaturePacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return fmt.Errorf("short feature command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -779,7 +781,7 @@ func (p *UDPPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 
 func (p *UDPPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 	const l = 39 // len of CID in base32
-	if len(data) < l {
+	if len(data) < l+1 {
 		return errors.New("short upd command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-- 
2.43.0


From 23ad3e3b162ec9c9b040c47be2c5424042dee8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 48/64] fix: adc: check feature selectors

---
 adc/packets.go | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index 746a5a3..7428cdb 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -692,31 +692,18 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 		data = nil
 	}
 	p.Sel = make([]FeatureSel, 0, len(data)/5)
-	for i := 0; i < len(data); i++ {
-		if data[i] == '+' {
-			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
-			}
-			var fea Feature
-			copy(fea[:], data[i+1:i+5])
-			p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: true})
-			i += 4
-		} else if data[i] == '-' {
-			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
-			}
-			var fea Feature
-			copy(fea[:], data[i+1:i+5])
-			p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: false})
-			i += 4
-		} else if data[i] == ' ' {
-			data = data[i:]
-			i = 0
-		} else {
-			data = data[i:]
-			break
+	for len(data) != 0 && (data[0] == '+' || data[0] == '-') {
+		if len(data) < 5 {
+			return fmt.Errorf("short feature: '%s'", string(data))
+		} else if len(data) > 5 && data[5] != ' ' {
+			return fmt.Errorf("separator expected: '%s'", string(data[:6]))
 		}
-		if i+1 == len(data) {
+		var fea Feature
+		copy(fea[:], data[1:5])
+		p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: data[0] == '+'})
+		if len(data) > 6 {
+			data = data[6:]
+		} else {
 			data = nil
 		}
 	}
-- 
2.43.0


From ef549f9345087a5baa8d91b91c22a25f966c2045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 49/64] fix: adc: unescape the values of generic fields

---
 adc/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/messages.go b/adc/messages.go
index 953e680..156b8b0 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -141,7 +141,7 @@ func (f *Fields) UnmarshalADC(data []byte) error {
 		if err := s.UnmarshalADC(v); err != nil {
 			return fmt.Errorf("cannot unmarshal field %s: %v", string(k[:]), err)
 		}
-		mp = append(mp, Field{Tag: k, Value: string(v)})
+		mp = append(mp, Field{Tag: k, Value: string(s)})
 	}
 	*f = mp
 	return nil
-- 
2.43.0


From 2c0408b1548b9098bc25dc609720a974ba4cf29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 50/64] fix: adc: decode zero flags as false

---
 adc/marshal.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 7c1cc01..8a41443 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -89,7 +89,14 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		} else if len(s) != 1 {
 			return errors.New("invalid bool value: " + string(s))
 		}
-		rv.SetBool(s[0] != 0)
+		switch s[0] {
+		case '0':
+			rv.SetBool(false)
+		case '1':
+			rv.SetBool(true)
+		default:
+			return errors.New("invalid bool value: " + string(s))
+		}
 		return nil
 	}
 	return fmt.Errorf("unknown type: %v", rv.Type())
-- 
2.43.0


From 0212859cb304e3da30c8562e429f7b6bae0d8f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 51/64] fix: adc: refuse numbers that are out of range

---
 adc/marshal.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 8a41443..7a7fe01 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -40,6 +40,9 @@ type Unmarshaler interface {
 	UnmarshalADC(data []byte) error
 }
 
+// maxFloatLen is a maximal length of a number in the float notation.
+const maxFloatLen = 15
+
 func unmarshalValue(s []byte, rv reflect.Value) error {
 	switch fv := rv.Addr().Interface().(type) {
 	case Unmarshaler:
@@ -51,21 +54,25 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 	}
 	switch rv.Kind() {
 	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16:
-		bits := 64
-		switch rv.Kind() {
-		case reflect.Int32, reflect.Int16:
-			bits = 32
-		}
+		bits := rv.Type().Bits()
 		sv := string(s)
+		if i := strings.IndexByte(sv, '.'); i > 0 && strings.Trim(sv[i+1:], "0") == "" {
+			sv = sv[:i] // no fraction
+		}
 		vi, err := strconv.ParseInt(sv, 10, bits)
 		if err != nil {
-			vf, err2 := strconv.ParseFloat(sv, bits)
+			vf, err2 := strconv.ParseFloat(sv, 64)
 			if err2 != nil {
 				return err
 			} else if math.Round(vf) != vf {
 				return err2
+			} else if len(sv) > maxFloatLen || math.Abs(vf) > math.MaxInt32 {
+				return err // might be not exact
 			}
 			vi = int64(vf)
+			if rv.OverflowInt(vi) {
+				return err
+			}
 		}
 		rv.SetInt(vi)
 		return nil
-- 
2.43.0


From 1212d773bde2d78518fbab322cfb6aaef71c31bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 52/64] fix: adc: refuse truncated password salts

---
 adc/hub.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/adc/hub.go b/adc/hub.go
index 68982d7..6aeb5f4 100644
--- a/adc/hub.go
+++ b/adc/hub.go
@@ -3,6 +3,7 @@ package adc
 import (
 	"bytes"
 	"encoding/base32"
+	"errors"
 
 	"github.com/direct-connect/go-dc/tiger"
 )
@@ -84,8 +85,13 @@ func (m GetPassword) MarshalADC(buf *bytes.Buffer) error {
 func (m *GetPassword) UnmarshalADC(data []byte) error {
 	size := base32Enc.DecodedLen(len(data))
 	m.Salt = make([]byte, size)
-	_, err := base32Enc.Decode(m.Salt, data)
-	return err
+	n, err := base32Enc.Decode(m.Salt, data)
+	if err != nil {
+		return err
+	} else if n != size {
+		return errors.New("invalid salt")
+	}
+	return nil
 }
 
 type Password struct {
-- 
2.43.0


From 6492c1804068e0f10e393651ebe55772a4c56733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 53/64] fix: adc: refuse status codes out of range

---
 adc/messages.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/adc/messages.go b/adc/messages.go
index 156b8b0..011b2f7 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -210,6 +210,9 @@ func (st Status) Err() error {
 }
 
 func (st Status) MarshalADC(buf *bytes.Buffer) error {
+	if st.Sev < 0 || st.Code < 0 || st.Code > 99 {
+		return fmt.Errorf("wrong status code: %d, %d", int(st.Sev), st.Code)
+	}
 	buf.WriteString(fmt.Sprintf("%d%02d ", int(st.Sev), st.Code))
 	buf.Write(escape(st.Msg))
 	return nil
@@ -221,6 +224,9 @@ func (st *Status) UnmarshalADC(s []byte) error {
 	if err != nil {
 		return fmt.Errorf("wrong status code: %v", err)
 	}
+	if code < 0 {
+		return fmt.Errorf("wrong status code: %d", code)
+	}
 	st.Code = code % 100
 	st.Sev = Severity(code / 100)
 	st.Msg = ""
-- 
2.43.0


From e8313d6d62eda70b8f8ad3670919517f0141e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 54/64] fix: adc: do not keep old paths and flags when decoding
 into a used message

---
 adc/files.go | 1 +
 adc/types.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/adc/files.go b/adc/files.go
index 9959464..8fee83e 100644
--- a/adc/files.go
+++ b/adc/files.go
@@ -57,6 +57,7 @@ func (m GetRequest) MarshalADC(buf *bytes.Buffer) error {
 }
 
 func (m *GetRequest) UnmarshalADC(data []byte) error {
+	m.Compressed = false
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCGET: missing separator after field 1")
diff --git a/adc/types.go b/adc/types.go
index 086701b..c20a6e3 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -289,6 +289,7 @@ func (p Path) MarshalADC(buf *bytes.Buffer) error {
 
 func (p *Path) UnmarshalADC(data []byte) error {
 	arr := bytes.Split(data, []byte("/"))
+	*p = nil
 	for _, a := range arr {
 		var path String
 		if err := path.UnmarshalADC(a); err != nil {
-- 
2.43.0


From 00ca68641b98252832278f71b392b4c74457c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 55/64] fix: adc: refuse session ids with delimiters

---
 adc/types/types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/adc/types/types.go b/adc/types/types.go
index ad0a6c5..bd7704e 100644
--- a/adc/types/types.go
+++ b/adc/types/types.go
@@ -47,6 +47,8 @@ func (id SID) MarshalADC(buf *bytes.Buffer) error {
 func (id *SID) UnmarshalADC(s []byte) error {
 	if len(s) != 4 {
 		return fmt.Errorf("wrong SID format: %q", s)
+	} else if bytes.ContainsAny(s, " \n") {
+		return fmt.Errorf("delimiter in SID: %q", s)
 	}
 	var buf [4]byte
 	copy(buf[:], s)
-- 
2.43.0


From a6b16fb8cc0285747700ee5215b981eea5dd665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 56/64] fix: adc: refuse feature selectors with delimiters

---
 adc/packets.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/adc/packets.go b/adc/packets.go
index 7428cdb..9df773c 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -697,6 +697,8 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 			return fmt.Errorf("short feature: '%s'", string(data))
 		} else if len(data) > 5 && data[5] != ' ' {
 			return fmt.Errorf("separator expected: '%s'", string(data[:6]))
+		} else if bytes.ContainsAny(data[1:5], " \n") {
+			return fmt.Errorf("delimiter in feature: '%s'", string(data[:5]))
 		}
 		var fea Feature
 		copy(fea[:], data[1:5])
-- 
2.43.0


From ba1d2929af2971f5353c16a8559438480c22506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 57/64] fix: adc: refuse feature names with delimiters

---
 adc/types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/adc/types.go b/adc/types.go
index c20a6e3..f37881e 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -84,6 +84,8 @@ func (f Feature) MarshalADC(buf *bytes.Buffer) error {
 func (f *Feature) UnmarshalADC(s []byte) error {
 	if len(s) != 4 {
 		return fmt.Errorf("malformed feature [%d]", len(s))
+	} else if bytes.ContainsAny(s, " \n") {
+		return fmt.Errorf("delimiter in feature: %q", s)
 	}
 	var v Feature
 	copy(v[:], s)
-- 
2.43.0


From b56bf25be99e4b82bc210c18e08b998f88c4bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 58/64] fix: dc: do not take hosts starting with adc for ADC
 addresses

---
 conn.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 877da6c..c6f32b2 100644
--- a/conn.go
+++ b/conn.go
@@ -8,9 +8,19 @@ import (
 	"github.com/direct-connect/go-dc/nmdc"
 )
 
+// isADC checks if the address has one of the ADC schemes.
+func isADC(addr string) bool {
+	i := strings.Index(addr, "://")
+	if i < 0 {
+		return false
+	}
+	scheme := strings.ToLower(addr[:i])
+	return scheme == adc.SchemaADC || scheme == adc.SchemaADCS
+}
+
 // ParseAddr parses an DC address as a URL.
 func ParseAddr(addr string) (*url.URL, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.ParseAddr(addr)
 	}
 	return nmdc.ParseAddr(addr)
@@ -18,7 +28,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 
 // NormalizeAddr parses and normalizes the address to scheme://host[:port] format.
 func NormalizeAddr(addr string) (string, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.NormalizeAddr(addr)
 	}
 	return nmdc.NormalizeAddr(addr)
-- 
2.43.0


From eb9474488142502a2e1d832b02d77f03b90ad593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 59/64] fix: nmdc: accept addresses without a scheme and with
 :// in path or query

---
 nmdc/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/conn.go b/nmdc/conn.go
index 8cde7b6..071af94 100644
--- a/nmdc/conn.go
+++ b/nmdc/conn.go
@@ -16,7 +16,7 @@ const (
 
 // ParseAddr parses an NMDC address as a URL. It will assume a dchub:// scheme if none is set.
 func ParseAddr(addr string) (*url.URL, error) {
-	if !strings.Contains(addr, "://") {
+	if i := strings.Index(addr, "://"); i < 0 || strings.ContainsAny(addr[:i], "/?#") {
 		addr = SchemeNMDC + "://" + addr
 	}
 	u, err := url.Parse(addr)
-- 
2.43.0


From ec1a89ff2994bb599abba584ee820ba3941e7f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 60/64] fix: keep escaped slashes when trimming the path of an
 address

---
 adc/conn.go  | 1 +
 nmdc/conn.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/adc/conn.go b/adc/conn.go
index 4c5cf4e..3a4d373 100644
--- a/adc/conn.go
+++ b/adc/conn.go
@@ -25,6 +25,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 		return u, fmt.Errorf("unsupported protocol: %q", u.Scheme)
 	}
 	u.Path = strings.TrimRight(u.Path, "/")
+	u.RawPath = strings.TrimRight(u.RawPath, "/")
 	return u, nil
 }
 
diff --git a/nmdc/conn.go b/nmdc/conn.go
index 071af94..ce3efe6 100644
--- a/nmdc/conn.go
+++ b/nmdc/conn.go
@@ -30,6 +30,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 		return u, fmt.Errorf("unsupported protocol: %q", u.Scheme)
 	}
 	u.Path = strings.TrimRight(u.Path, "/")
+	u.RawPath = strings.TrimRight(u.RawPath, "/")
 	return u, nil
 }
 
-- 
2.43.0


From b22b2a23cedb7087803152570685e0fc6ec8d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 61/64] fix: adc: do not overwrite copies of the fields decoded
 before

---
 adc/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/messages.go b/adc/messages.go
index 011b2f7..e15e167 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -125,7 +125,7 @@ func (f Fields) MarshalADC(buf *bytes.Buffer) error {
 }
 
 func (f *Fields) UnmarshalADC(data []byte) error {
-	*f = (*f)[:0]
+	*f = nil // copies of the old value must not change
 	if len(data) == 0 {
 		return nil
 	}
-- 
2.43.0


From 1668ab426ce322f139ad5081c89a6a2ea60469c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 62/64] fix: nmdc: apply the name limit to the encoded form of
 a name

---
 nmdc/types.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nmdc/types.go b/nmdc/types.go
index 4634468..f20bb3a 100644
--- a/nmdc/types.go
+++ b/nmdc/types.go
@@ -83,9 +83,6 @@ func (*NoArgs) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
 type Name string
 
 func (s Name) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
-	if len(s) > maxName {
-		return errors.New("name is too long")
-	}
 	str := string(s)
 	if enc != nil {
 		var err error
@@ -99,7 +96,7 @@ func (s Name) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 		return err
 	}
 	if buf.Len()-n > maxName {
-		// the limit also applies to the escaped form
+		// the limit applies to the encoded and escaped form
 		return errors.New("name is too long")
 	}
 	return nil
-- 
2.43.0


From 078d6b7daa1a09c278451c6c3b966eda220c07c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 63/64] fix: adc: refuse raw messages with line breaks

---
 adc/messages.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adc/messages.go b/adc/messages.go
index e15e167..408c66d 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -2,6 +2,7 @@ package adc
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"os"
 	"reflect"
@@ -70,6 +71,9 @@ func (m *RawMessage) Decode() (Message, error) {
 }
 
 func (m *RawMessage) MarshalADC(buf *bytes.Buffer) error {
+	if bytes.IndexByte(m.Data, '\n') >= 0 {
+		return errors.New("line breaks are not allowed in raw messages")
+	}
 	buf.Write(m.Data)
 	return nil
 }
-- 
2.43.0


From ada1cae8490debe561fa412ac66874b41b4182c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:00 +0000
Subject: [PATCH 64/64] fix: adc: a removed feature is not set

---
 adc/types.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/adc/types.go b/adc/types.go
index f37881e..b1143b9 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -154,11 +154,7 @@ func (f *ModFeatures) UnmarshalADC(s []byte) error {
 }
 
 func (f ModFeatures) IsSet(s Feature) bool {
-	if f == nil {
-		return false
-	}
-	_, ok := f[s]
-	return ok
+	return f[s] // a feature that was removed is in the map, but not set
 }
 
 func (f ModFeatures) SetFrom(fp ModFeatures) ModFeatures {
-- 
2.43.0

