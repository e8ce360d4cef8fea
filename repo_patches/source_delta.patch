From 39fd3c62b235b6935e54940315a871cf289d7b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 01/50] fix: NewNavigationError constructs a NavigationError
 instead of a ParseError

---
 vtdxml/erroring/erroring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/erroring/erroring.go b/vtdxml/erroring/erroring.go
index c6a1e3a..68178a7 100644
--- a/vtdxml/erroring/erroring.go
+++ b/vtdxml/erroring/erroring.go
@@ -124,8 +124,8 @@ type NavigationError struct {
 }
 
 // NewNavigationError constructs a new NavigationError, wrapping the provided error.
-func NewNavigationError(msg string, err error) *ParseError {
-	return &ParseError{
+func NewNavigationError(msg string, err error) *NavigationError {
+	return &NavigationError{
 		baseError: newBaseError(
 			fmt.Sprintf("a navigation error occurred: %s", msg),
 			err,
-- 
2.43.0


From b6fa07e70fb7e9b77c7300ce5b4d38c7ef5a2dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 02/50] fix: buffer page size options reject negative and
 overflowing exponents

---
 vtdxml/buffer/int_buffer.go    |  2 +-
 vtdxml/buffer/long_buffer.go   | 10 ++++++----
 vtdxml/buffer/object_buffer.go | 10 ++++++----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 4860fef..b3fdd06 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -51,7 +51,7 @@ func NewFastIntBuffer(opts ...FastIntBufferOption) (*FastIntBuffer, error) {
 		opt(b)
 	}
 
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 93390ed..18d22e5 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -31,9 +31,11 @@ type FastLongBuffer struct {
 
 func WithFastLongBufferPageSize(size int) FastLongBufferOption {
 	return func(b *FastLongBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -50,7 +52,7 @@ func NewFastLongBuffer(opts ...FastLongBufferOption) (*FastLongBuffer, error) {
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 07bc0f3..136b3a4 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -28,9 +28,11 @@ type FastObjectBuffer struct {
 
 func WithFastObjectBufferPageSize(size int) FastObjectBufferOption {
 	return func(b *FastObjectBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -47,7 +49,7 @@ func NewFastObjectBuffer(opts ...FastObjectBufferOption) (*FastObjectBuffer, err
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
-- 
2.43.0


From fe208b9c864a0085d9d7f0a8dfd3a9329ebcb4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 03/50] fix: paged buffers check the page number against the
 pages and the offset against the page

---
 vtdxml/buffer/int_buffer.go    | 8 ++++----
 vtdxml/buffer/long_buffer.go   | 8 ++++----
 vtdxml/buffer/object_buffer.go | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index b3fdd06..c475685 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -66,7 +66,7 @@ func (b *FastIntBuffer) IntAt(index int) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastIntBuffer) ModifyEntry(index int, value int32) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -146,14 +146,14 @@ func (b *FastIntBuffer) Clear() {
 }
 
 func (b *FastIntBuffer) get(index int) ([]int32, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastIntBuffer) set(index int, value []int32) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 18d22e5..3f7c1f5 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -67,7 +67,7 @@ func (b *FastLongBuffer) LongAt(index int) (int64, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastLongBuffer) ModifyEntry(index int, value int64) error {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -168,14 +168,14 @@ func (b *FastLongBuffer) Clear() {
 }
 
 func (b *FastLongBuffer) get(index int) ([]int64, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastLongBuffer) set(index int, value []int64) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 136b3a4..f24108b 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -64,7 +64,7 @@ func (b *FastObjectBuffer) ObjectAt(index int) (interface{}, error) {
 	if err != nil {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -79,7 +79,7 @@ func (b *FastObjectBuffer) ModifyEntry(index int, value interface{}) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -116,14 +116,14 @@ func (b *FastObjectBuffer) Clear() {
 }
 
 func (b *FastObjectBuffer) get(index int) ([]interface{}, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastObjectBuffer) set(index int, value []interface{}) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
-- 
2.43.0


From 4f2eee4d928d964a59f83f4c6fd8653fa608b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:51 +0000
Subject: [PATCH 04/50] fix: long and int buffers address the right entry after
 SetSize and Clear

---
 vtdxml/buffer/int_buffer.go  | 36 +++++++++++++++++++++++-------------
 vtdxml/buffer/long_buffer.go | 36 +++++++++++++++++++++++-------------
 2 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index c475685..5587f24 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -66,7 +66,7 @@ func (b *FastIntBuffer) IntAt(index int) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if index < 0 || offset >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastIntBuffer) ModifyEntry(index int, value int32) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || offset >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -93,7 +93,9 @@ func (b *FastIntBuffer) GetSize() int {
 }
 
 func (b *FastIntBuffer) SetSize(size int) {
-	b.size = size
+	if size >= 0 && size < b.size {
+		b.size = size
+	}
 }
 
 // ToIntArray function converts 2D buffer into int32 slice
@@ -112,6 +114,10 @@ func (b *FastIntBuffer) ToIntArray() ([]int32, error) {
 			// if error occurs stop iteration and return error
 			return nil, err
 		}
+		// drop the entries past the buffer size, they have been truncated
+		if len(buffer) > size {
+			buffer = buffer[:size]
+		}
 		// load-in buffer page into int32 slice
 		for j := range buffer {
 			v := buffer[j]
@@ -124,21 +130,25 @@ func (b *FastIntBuffer) ToIntArray() ([]int32, error) {
 }
 
 func (b *FastIntBuffer) Append(value int32) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
-		bufferSlice, err := b.get(pageNum)
-		if err != nil {
-			return err
-		}
-		bufferSlice = append(bufferSlice, value)
-		b.size++
-		return b.set(pageNum, bufferSlice)
-	} else {
+	pageNum := b.size >> b.exp
+	if pageNum >= len(b.buffer) {
 		b.size++
 		b.capacity += b.pageSize
 		b.buffer = append(b.buffer, []int32{value})
 		return nil
 	}
+	bufferSlice, err := b.get(pageNum)
+	if err != nil {
+		return err
+	}
+	// reuse the entries left behind by truncated values before growing the page
+	if offset := b.size & b.r; offset < len(bufferSlice) {
+		bufferSlice[offset] = value
+	} else {
+		bufferSlice = append(bufferSlice, value)
+	}
+	b.size++
+	return b.set(pageNum, bufferSlice)
 }
 
 func (b *FastIntBuffer) Clear() {
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 3f7c1f5..e4ecab0 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -67,7 +67,7 @@ func (b *FastLongBuffer) LongAt(index int) (int64, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
-	if index < 0 || offset >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastLongBuffer) ModifyEntry(index int, value int64) error {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
 	offset := index & b.r
-	if index < 0 || offset >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -93,7 +93,9 @@ func (b *FastLongBuffer) GetSize() int {
 }
 
 func (b *FastLongBuffer) SetSize(size int) {
-	b.size = size
+	if size >= 0 && size < b.size {
+		b.size = size
+	}
 }
 
 // Lower32At function return lower 32 bit of the int64 at the index
@@ -134,6 +136,10 @@ func (b *FastLongBuffer) ToLongArray() ([]int64, error) {
 			// if error occurs stop iteration and return error
 			return nil, err
 		}
+		// drop the entries past the buffer size, they have been truncated
+		if len(buffer) > size {
+			buffer = buffer[:size]
+		}
 		// load-in buffer page into int64 slice
 		for j := range buffer {
 			v := buffer[j]
@@ -146,21 +152,25 @@ func (b *FastLongBuffer) ToLongArray() ([]int64, error) {
 }
 
 func (b *FastLongBuffer) Append(value int64) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
-		bufferSlice, err := b.get(pageNum)
-		if err != nil {
-			return err
-		}
-		bufferSlice = append(bufferSlice, value)
-		b.size++
-		return b.set(pageNum, bufferSlice)
-	} else {
+	pageNum := b.size >> b.exp
+	if pageNum >= len(b.buffer) {
 		b.size++
 		b.capacity += b.pageSize
 		b.buffer = append(b.buffer, []int64{value})
 		return nil
 	}
+	bufferSlice, err := b.get(pageNum)
+	if err != nil {
+		return err
+	}
+	// reuse the entries left behind by truncated values before growing the page
+	if offset := b.size & b.r; offset < len(bufferSlice) {
+		bufferSlice[offset] = value
+	} else {
+		bufferSlice = append(bufferSlice, value)
+	}
+	b.size++
+	return b.set(pageNum, bufferSlice)
 }
 
 func (b *FastLongBuffer) Clear() {
-- 
2.43.0


From 3e28c6650ddbd9f4b07d64572facd6eb1c2af8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 05/50] fix: object buffer starts a new page when the last one
 is full or cleared

---
 vtdxml/buffer/object_buffer.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index f24108b..17b2579 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -91,24 +91,26 @@ func (b *FastObjectBuffer) GetSize() int {
 }
 
 func (b *FastObjectBuffer) SetSize(size int) {
-	b.size = size
+	if size >= 0 && size < b.size {
+		b.size = size
+	}
 }
 
 func (b *FastObjectBuffer) Append(value interface{}) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
+	// size of the object buffer is the number of its pages
+	if pageNum := b.size - 1; pageNum >= 0 {
 		bufferSlice, err := b.get(pageNum)
 		if err != nil {
 			return err
 		}
-		bufferSlice = append(bufferSlice, value)
-		return b.set(pageNum, bufferSlice)
-	} else {
-		b.size++
-		b.capacity += b.pageSize
-		b.buffer = append(b.buffer, []interface{}{value})
-		return nil
+		if len(bufferSlice) < b.pageSize {
+			return b.set(pageNum, append(bufferSlice, value))
+		}
 	}
+	b.buffer = append(b.buffer[:b.size], []interface{}{value})
+	b.size++
+	b.capacity += b.pageSize
+	return nil
 }
 
 func (b *FastObjectBuffer) Clear() {
@@ -116,7 +118,7 @@ func (b *FastObjectBuffer) Clear() {
 }
 
 func (b *FastObjectBuffer) get(index int) ([]interface{}, error) {
-	if index < 0 || index >= len(b.buffer) {
+	if index < 0 || index >= b.size || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
-- 
2.43.0


From 2bbefa530f121e61faa2ad23983bc09ca4cb9b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:57 +0000
Subject: [PATCH 06/50] fix: Upper32At returns all 32 upper bits

---
 vtdxml/buffer/long_buffer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index e4ecab0..c789a16 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -114,7 +114,6 @@ func (b *FastLongBuffer) Upper32At(index int) (int32, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	valueLong = valueLong & (0xFFFFFFF << 32)
 	valueLong = valueLong >> 32
 	valueInt := int32(valueLong)
 	return valueInt, nil
-- 
2.43.0


From ae0d3c80f391fc7b328e01e18cb0019827a408ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:58 +0000
Subject: [PATCH 07/50] fix: GetByteSlice returns the requested window and
 cannot overflow its bound check

---
 vtdxml/buffer/byte_buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/buffer/byte_buffer.go b/vtdxml/buffer/byte_buffer.go
index 7f2664e..336a083 100644
--- a/vtdxml/buffer/byte_buffer.go
+++ b/vtdxml/buffer/byte_buffer.go
@@ -33,10 +33,10 @@ func (b *UniByteBuffer) GetByteSlice(offset int, length int) ([]byte, error) {
 	if offset < 0 || offset >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if length < 1 || offset+length >= len(b.buffer) {
+	if length < 1 || length >= len(b.buffer)-offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
-	return b.buffer[offset:length], nil
+	return b.buffer[offset : offset+length], nil
 }
 
 func (b *UniByteBuffer) GetBytes() []byte {
-- 
2.43.0


From 90c147378b5bb18a4b7ac409a850edf405f935a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 08/50] fix: readers do not skip past the end of the document

---
 vtdxml/reader/ascii_reader.go | 2 +-
 vtdxml/reader/utf8_reader.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index fcd68e9..3137253 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -50,7 +50,7 @@ func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
 }
 
 func (r *AsciiReader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
+	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 8b68251..661bb7c 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -54,7 +54,7 @@ func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
+	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
-- 
2.43.0


From 0904e80f1702fd5bf1554e8948cb7819f015d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 09/50] fix: readers report EOF for positions outside of the
 document

---
 vtdxml/reader/ascii_reader.go | 8 +++++++-
 vtdxml/reader/utf8_reader.go  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index 3137253..fbe751f 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -42,8 +42,11 @@ func (r *AsciiReader) GetChar() (uint32, error) {
 }
 
 func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
@@ -68,6 +71,9 @@ func (r *AsciiReader) SkipCharSeq(seq string) bool {
 }
 
 func (r *AsciiReader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 661bb7c..887cef0 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -42,14 +42,20 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 }
 
 func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
 }
 
 func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
-- 
2.43.0


From b3be4e2ea0be8407a5f92ec89b7bb7aa5aa95ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 10/50] fix: readers ignore negative offsets

---
 vtdxml/reader/ascii_reader.go | 4 +++-
 vtdxml/reader/utf8_reader.go  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index fbe751f..ea9ea4f 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -82,7 +82,9 @@ func (r *AsciiReader) GetOffset() int {
 }
 
 func (r *AsciiReader) SetOffset(offset int) {
-	r.offset = offset
+	if offset >= 0 {
+		r.offset = offset
+	}
 }
 
 // isASCII function to validate if a character is a valid ASCII character
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 887cef0..233149f 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -82,7 +82,9 @@ func (r *Utf8Reader) GetOffset() int {
 }
 
 func (r *Utf8Reader) SetOffset(offset int) {
-	r.offset = offset
+	if offset >= 0 {
+		r.offset = offset
+	}
 }
 
 // isUTF8 function to validate if a character is a valid ASCII character
-- 
2.43.0


From dca7fc19c855d5f334fe75c0ef4e0942da1f5ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:47 +0000
Subject: [PATCH 11/50] fix: ASCII reader accepts the document length as its
 end offset

---
 vtdxml/reader/ascii_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index ea9ea4f..e96f7c3 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -19,7 +19,7 @@ func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error)
 	if offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if endOffset < 0 || endOffset >= len(xmlDoc) {
+	if endOffset < 0 || endOffset > len(xmlDoc) {
 		return nil, erroring.NewInvalidArgumentError("endOffset", erroring.IndexOutOfRange, nil)
 	}
 	return &AsciiReader{
-- 
2.43.0


From 59539faff110734f7e5f458bc9f2973907f7be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:25 +0000
Subject: [PATCH 12/50] fix: document window with a negative or overflowing
 length is rejected

---
 vtdxml/parser/vtd_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index d2112df..bbea421 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -129,7 +129,7 @@ func NewVtdParser(opts ...Option) (*VtdParser, error) {
 	if g.offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if g.length == 0 || g.offset+g.length > len(g.xmlDoc) {
+	if g.length <= 0 || g.length > len(g.xmlDoc)-g.offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
 	// perform additional initialization
-- 
2.43.0


From 9b092b763e0b1205bae8b51d4b4844dd8396426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 13/50] fix: ending tag without a starting tag is a parse error
 instead of a panic

---
 vtdxml/parser/process_end_tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 56a539f..6ac75ae 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -3,6 +3,9 @@ package parser
 import "github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 
 func (p *VtdParser) processEndTag() (State, error) {
+	if p.depth < 0 {
+		return StateInvalid, erroring.NewParseError("ending tag without a starting tag", p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset
 	sOffset := int(int32(p.tagStack[p.depth]))
 	sLength := int(int32(p.tagStack[p.depth] >> 32))
-- 
2.43.0


From 735f875e341a2791b65f7bb778223bd6a56e39d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 14/50] fix: elements with more than 256 attributes do not
 overrun the attribute records

---
 vtdxml/parser/process_attr_name.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_attr_name.go b/vtdxml/parser/process_attr_name.go
index d6dc1d8..608342c 100644
--- a/vtdxml/parser/process_attr_name.go
+++ b/vtdxml/parser/process_attr_name.go
@@ -129,14 +129,15 @@ func (p *VtdParser) checkAttrUniqueness() error {
 	if !unique && p.attrCount != 0 {
 		return erroring.NewParseError(erroring.AttrNotUnique, p.fmtLine(), nil)
 	}
-	p.attrNameSlice[p.attrCount] = (p.lastOffset << 32) | p.length1
+	p.attrNameSlice = append(p.attrNameSlice[:p.attrCount], (p.lastOffset<<32)|p.length1)
 	p.attrCount++
 	if p.nsAware && !p.isNs && p.length2 != 0 {
 		isXml := p.checkXmlPrefix(p.lastOffset, -1, false)
 		if (p.increment == 1 && p.length2 == 3 && isXml) || (p.increment == 2 && p.length2 == 6 && isXml) {
 			return nil
 		}
-		p.prefixedAttrNameSlice[p.prefixedAttCount] = int64((p.lastOffset << 32) | (p.length2 << 16) | p.length1)
+		p.prefixedAttrNameSlice = append(p.prefixedAttrNameSlice[:p.prefixedAttCount],
+			int64((p.lastOffset<<32)|(p.length2<<16)|p.length1))
 		p.prefixedAttCount++
 	}
 	return nil
-- 
2.43.0


From 26bb9cfdf2a317d544d792f782c3e92a712694bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 15/50] fix: qualified attributes are compared through their
 own namespace record

---
 vtdxml/parser/process_attr_val.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 6d00902..2f60959 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -220,7 +220,7 @@ func (p *VtdParser) qualifyAttributes() error {
 		if i < 0 {
 			return erroring.NewParseError("prefixed attribute not qualified", p.fmtLine(), nil)
 		} else {
-			p.prefixUrlSlice = append(p.prefixUrlSlice, i)
+			p.prefixUrlSlice = append(p.prefixUrlSlice[:j], i)
 		}
 	}
 	return nil
-- 
2.43.0


From 2796eaa0e078bea597dd819e1472b682d22ed160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 16/50] fix: encoding detection does not read past a short
 document

---
 vtdxml/parser/common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7f10ab3..040f478 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -344,6 +344,10 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 }
 
 func (p *VtdParser) decideEncoding() error {
+	if p.endOffset-p.offset < 4 {
+		// too short to hold any of the encoding signatures
+		return nil
+	}
 	if int32(p.xmlDoc[p.offset]) == -2 {
 		p.increment = 2
 		if int32(p.xmlDoc[p.offset+1]) == -1 {
-- 
2.43.0


From 3aadf3773794d6cc66d7ff269f25e91074a4773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 17/50] fix: only ]]> terminates CDATA and is illegal in text

---
 vtdxml/parser/common.go        | 3 ++-
 vtdxml/parser/process.go       | 3 ++-
 vtdxml/parser/process_cdata.go | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 040f478..89007c6 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -560,10 +560,11 @@ func (p *VtdParser) handleOtherTextChar(ch uint32) error {
 		}
 	case ']':
 		{
+			closing := p.skipChar(']')
 			// skip all ] chars
 			for p.skipChar(']') {
 			}
-			if p.skipChar('>') {
+			if closing && p.skipChar('>') {
 				return erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
 			}
 			break
diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 6c72087..6532ad7 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -45,10 +45,11 @@ func (p *VtdParser) getNextProcessStateFromChar(ch uint32) (State, error) {
 		return StateText, nil
 	}
 	if ch == ']' {
+		closing := p.skipChar(']')
 		// skip all ] chars
 		for p.skipChar(']') {
 		}
-		if p.skipChar('>') {
+		if closing && p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
 		}
 		return StateText, nil
diff --git a/vtdxml/parser/process_cdata.go b/vtdxml/parser/process_cdata.go
index 1d02149..55eccdb 100644
--- a/vtdxml/parser/process_cdata.go
+++ b/vtdxml/parser/process_cdata.go
@@ -13,7 +13,7 @@ func (p *VtdParser) processCdata() (State, error) {
 		if !p.xmlChar.IsValidChar(p.currentChar) {
 			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
 		}
-		if p.currentChar == ']' {
+		if p.currentChar == ']' && p.skipChar(']') {
 			// skip all ] chars
 			for p.skipChar(']') {
 			}
-- 
2.43.0


From c56eac1ac3db09ea73c40f0694957d5e3842c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 18/50] fix: comments after the root element are accepted

---
 vtdxml/parser/process_end_comment.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/process_end_comment.go b/vtdxml/parser/process_end_comment.go
index 84b2b20..769761d 100644
--- a/vtdxml/parser/process_end_comment.go
+++ b/vtdxml/parser/process_end_comment.go
@@ -18,6 +18,9 @@ func (p *VtdParser) processEndComment() (State, error) {
 			break
 		}
 	}
+	if err := p.nextChar(); err != nil {
+		return StateInvalid, err
+	}
 	if p.currentChar != '>' {
 		return StateInvalid, erroring.NewParseError("invalid terminating sequence, --> expected", p.fmtLine(), nil)
 	}
-- 
2.43.0


From 53bdd93d8f34dcb71c8354de2e92673958e3893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:50 +0000
Subject: [PATCH 19/50] fix: processing instructions without a value are
 accepted after the root element

---
 vtdxml/parser/process_pi_end.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_pi_end.go b/vtdxml/parser/process_pi_end.go
index cd11eda..205be40 100644
--- a/vtdxml/parser/process_pi_end.go
+++ b/vtdxml/parser/process_pi_end.go
@@ -65,7 +65,7 @@ func (p *VtdParser) processPiEnd() (State, error) {
 				return StateInvalid, err
 			}
 		}
-		if p.currentChar != '?' || p.skipChar('>') {
+		if p.currentChar != '?' || !p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("invalid termination sequence", p.fmtLine(), nil)
 		}
 	}
-- 
2.43.0


From 571a34a0911ad003948a68894e8542ba42669595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 20/50] fix: DOCTYPE belongs in the prolog

---
 vtdxml/parser/process.go         | 4 ----
 vtdxml/parser/process_lt_seen.go | 8 +++++++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 6532ad7..d2b305a 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -18,10 +18,6 @@ func (p *VtdParser) validateSeq(seq string) error {
 				p.fmtLine(), nil)
 		}
 	}
-	if p.depth < 0 {
-		return erroring.NewParseError(fmt.Sprintf("wrong place for %s", seq),
-			p.fmtLine(), nil)
-	}
 	return nil
 }
 
diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index 10ce090..427a1e2 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -44,12 +44,18 @@ func (p *VtdParser) processExSeen() (State, error) {
 		if err := p.validateSeq(cdata); err != nil {
 			return StateInvalid, err
 		}
+		if p.depth < 0 {
+			return StateInvalid, erroring.NewParseError("wrong place for CDATA", p.fmtLine(), nil)
+		}
 		p.lastOffset = p.offset
 		return StateCdata, nil
 	case 'D':
-		if err := p.validateSeq(docType); err != nil {
+		if err := p.validateSeq(docType[1:]); err != nil {
 			return StateInvalid, err
 		}
+		if p.depth >= 0 {
+			return StateInvalid, erroring.NewParseError("wrong place for DOCTYPE", p.fmtLine(), nil)
+		}
 		p.lastOffset = p.offset
 		return StateDocType, nil
 	default:
-- 
2.43.0


From a12df7d20204d109c51a8550585cd37646342ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 21/50] fix: reader is rewound with the parser when there is no
 XML declaration

---
 vtdxml/parser/process_doc_start.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index 9d4787f..350d3a0 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -25,7 +25,7 @@ func (p *VtdParser) processDocStart() (State, error) {
 				return StateInvalid, erroring.NewParseError("premature ending", p.fmtLine(), nil)
 			}
 		}
-		p.offset = p.lastOffset
+		p.setOffset(p.lastOffset)
 		return StateLtSeen, nil
 	} else if p.currentChar == ' ' || p.currentChar == '\t' || p.currentChar == '\n' || p.currentChar == '\r' {
 		if err := p.nextCharAfterWs(); err != nil {
-- 
2.43.0


From 5b99f1e1fb8150648c05f34fd34ccc33c52e15da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 22/50] fix: error after leading white space is not swallowed

---
 vtdxml/parser/process_doc_start.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index 350d3a0..03cfd03 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -29,7 +29,7 @@ func (p *VtdParser) processDocStart() (State, error) {
 		return StateLtSeen, nil
 	} else if p.currentChar == ' ' || p.currentChar == '\t' || p.currentChar == '\n' || p.currentChar == '\r' {
 		if err := p.nextCharAfterWs(); err != nil {
-			return StateInvalid, nil
+			return StateInvalid, err
 		}
 		if p.currentChar == '<' {
 			return StateLtSeen, nil
-- 
2.43.0


From bf6d3e87b589aa1854f711ceaf349a0ebce5dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 23/50] fix: character following the xml prefix of a PI target
 is validated

---
 vtdxml/parser/process_lt_seen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index 427a1e2..c6b5186 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -85,6 +85,7 @@ func (p *VtdParser) processQmSeen() (State, error) {
 			if err != nil {
 				return StateInvalid, err
 			}
+			p.reader.SetOffset(offset)
 			p.offset = offset
 		}
 		return StatePiTag, nil
-- 
2.43.0


From d279a933fdf46bed2a6e4a26e76215f8982083c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:04 +0000
Subject: [PATCH 24/50] fix: chunks of a long token start at the token offset

---
 vtdxml/parser/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 89007c6..649efcf 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -243,8 +243,8 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 // writeVtdText function writes token text into VTD buffer
 func (p *VtdParser) writeVtdText(tokenType common.Token, offset, length, depth int) error {
 	if length > maxTokenLength {
-		var j, rOffset int
-		for j = length; j > maxTokenLength; j -= maxTokenLength {
+		j, rOffset := length, offset
+		for ; j > maxTokenLength; j -= maxTokenLength {
 			if err := p.writeVtd(tokenType, rOffset, maxTokenLength, depth); err != nil {
 				return err
 			}
-- 
2.43.0


From b9caae77bdcd06487230d6e202b6b8b0cf502657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:07 +0000
Subject: [PATCH 25/50] fix: prefix length of a starting tag is written to its
 own bits

---
 vtdxml/parser/process_start_tag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 9bac2be..78bf66c 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,11 +38,11 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
-			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		}
-- 
2.43.0


From 74afcd7dd2bd50e34ad2eee5929518da703aaf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 26/50] fix: location cache marks a missing child with all 32
 bits set

---
 vtdxml/parser/common.go | 20 ++++++++++----------
 vtdxml/parser/parse.go  | 12 ++++++------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 649efcf..22c8760 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -146,19 +146,19 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 	case 1:
 		{
 			if p.lastDepth == 1 {
-				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -173,15 +173,15 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -196,11 +196,11 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -215,7 +215,7 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 69fd652..1cd15c8 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -85,19 +85,19 @@ func (p *VtdParser) finishUp() error {
 	var err error
 	if p.shallowDepth {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		}
 	} else {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 3 {
-			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF))
+			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 4 {
-			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF))
+			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF))
 		}
 	}
 	return err
-- 
2.43.0


From d6f33cb6a42a06155bf81db71e72a3888102b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:14 +0000
Subject: [PATCH 27/50] fix: xml and xmlns prefixes match by the length of the
 document encoding

---
 vtdxml/parser/common.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 22c8760..82adda4 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -423,6 +423,9 @@ func (p *VtdParser) decideEncoding() error {
 // byte array starting from offset. Length is passed to validate correct length
 // of the expected sequence
 func (p *VtdParser) checkXmlPrefix(offset, length int, checkLength bool) bool {
+	if checkLength && length != 4*p.increment {
+		return false
+	}
 	var valid bool
 	if p.encoding < common.FormatUtf16BE {
 		valid = p.xmlDoc[offset] == 'x' &&
@@ -443,10 +446,6 @@ func (p *VtdParser) checkXmlPrefix(offset, length int, checkLength bool) bool {
 			p.xmlDoc[offset+4] == 'l' &&
 			p.xmlDoc[offset+5] == 0
 	}
-
-	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 4) || length == 8
-	}
 	return valid
 }
 
@@ -454,6 +453,9 @@ func (p *VtdParser) checkXmlPrefix(offset, length int, checkLength bool) bool {
 // byte array starting from offset. Length is passed to validate correct length
 // of the expected sequence
 func (p *VtdParser) checkXmlnsPrefix(offset, length int, checkLength bool) bool {
+	if checkLength && length != 5*p.increment {
+		return false
+	}
 	var valid bool
 	if p.encoding < common.FormatUtf16BE {
 		valid = p.xmlDoc[offset] == 'x' &&
@@ -484,10 +486,6 @@ func (p *VtdParser) checkXmlnsPrefix(offset, length int, checkLength bool) bool
 			p.xmlDoc[offset+8] == 's' &&
 			p.xmlDoc[offset+9] == 0
 	}
-
-	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 5) || length == 10
-	}
 	return valid
 }
 
-- 
2.43.0


From 1899478f817fca152c2b4de822701b5765c04722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 28/50] fix: qualifyElement does not swallow a buffer error

---
 vtdxml/parser/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 82adda4..4ef5214 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -505,7 +505,7 @@ func (p *VtdParser) qualifyElement() error {
 		if diff == preLen {
 			lowVal, err := p.nsBuffer3.Lower32At(i)
 			if err != nil {
-				return nil
+				return err
 			}
 			os := int(lowVal+(upVal>>16)) + p.increment
 			var j int
-- 
2.43.0


From aec7fc87f8532161f381097a14db6ecc94912e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:19 +0000
Subject: [PATCH 29/50] fix: numeric character references do not overflow

---
 vtdxml/parser/common.go           | 7 +++++++
 vtdxml/parser/process_attr_val.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 4ef5214..9e293ba 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -620,6 +621,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -630,6 +634,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					ch, err = p.getChar()
 					if err != nil {
 						return 0, err
diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 2f60959..83949b9 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"unicode"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -341,6 +342,9 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 						inc += p.increment
 						break
 					}
+					if val > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -355,6 +359,9 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 					} else if ch == ';' {
 						break
 					}
+					if val > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			}
 			break
-- 
2.43.0


From cb17fa5884f5db13b2d07a1fd04de5b692f800a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 30/50] fix: resolving &amp; and &apos; in a namespace URL does
 not consume the input

---
 vtdxml/parser/process_attr_val.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 83949b9..0d3810a 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -368,10 +368,11 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 		}
 	case 'a':
 		{
-			ch2, err := p.getChar()
+			ch2, err := p.getCharUnit(offset)
 			if err != nil {
 				return 0, err
 			}
+			offset += p.increment
 			if p.encoding < common.FormatUtf16BE {
 				if ch2 == 'm' {
 					// checks that the sequence matcher &amp;
-- 
2.43.0


From 0dd287c0faace6013847d1585fcafab5c6a1b54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 31/50] fix: getCharUnit reports EOF outside of the document

---
 vtdxml/parser/process_attr_val.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 0d3810a..61f1eb6 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -449,6 +449,9 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 }
 
 func (p *VtdParser) getCharUnit(offset int) (int32, error) {
+	if offset < 0 || offset > p.endOffset-p.increment {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	if p.encoding <= 2 {
 		return int32(p.xmlDoc[offset] & 0xff), nil
 	} else if p.encoding < common.FormatUtf16BE {
-- 
2.43.0


From d200bf41a24a115e40ad1c42dca3ea7c082d893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 32/50] fix: namespace URLs are compared up to their ends

---
 vtdxml/parser/process_attr_val.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 61f1eb6..332514e 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -468,8 +468,8 @@ func (p *VtdParser) getCharUnit(offset int) (int32, error) {
 }
 
 func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
-	for a.offset < a.offset+a.length &&
-		b.offset < b.offset+b.length {
+	endA, endB := a.offset+a.length, b.offset+b.length
+	for a.offset < endA && b.offset < endB {
 		chA, err := p.getCharResolved(a.offset)
 		if err != nil {
 			return false, err
@@ -478,14 +478,13 @@ func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
 		if err != nil {
 			return false, err
 		}
-		if chA != chB {
+		if int32(chA) != int32(chB) {
 			return false, err
 		}
 		a.offset += int(chA >> 32)
 		b.offset += int(chB >> 32)
 	}
-	if a.offset == a.offset+a.length &&
-		b.offset == b.offset+b.length {
+	if a.offset == endA && b.offset == endB {
 		return true, nil
 	}
 	return false, nil
-- 
2.43.0


From 26494ca30431e8c6b5c9125973ca4a21ee588602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 33/50] fix: Parse does not write to the shared EOF error
 variable

---
 vtdxml/parser/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 1cd15c8..c85aa58 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -23,6 +23,7 @@ func (p *VtdParser) Parse() error {
 
 	var ps State
 	var err error
+	var eofErr *erroring.EOFError
 	for {
 		fmt.Printf("Starting process state: %d\n", parserState)
 		fmt.Printf("Offset: %d LastOffset %d CurrentChar %d Length1 %d\n", p.offset, p.lastOffset, p.currentChar,
@@ -67,7 +68,7 @@ func (p *VtdParser) Parse() error {
 			)
 		}
 
-		if errors.As(err, &erroring.EOFErrorType) && parserState == StateDocEnd {
+		if errors.As(err, &eofErr) && parserState == StateDocEnd {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
-- 
2.43.0


From b07ebeb4d3514716167ca527e72fda2456193907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 34/50] fix: Parse does not print its progress to the standard
 output

---
 vtdxml/parser/parse.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index c85aa58..99c1c43 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -25,9 +24,6 @@ func (p *VtdParser) Parse() error {
 	var err error
 	var eofErr *erroring.EOFError
 	for {
-		fmt.Printf("Starting process state: %d\n", parserState)
-		fmt.Printf("Offset: %d LastOffset %d CurrentChar %d Length1 %d\n", p.offset, p.lastOffset, p.currentChar,
-			p.length1)
 
 		switch parserState {
 		case StateDocType:
-- 
2.43.0


From f32a5202d06e1d26d204546d4460a4bff832120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 35/50] fix: character data starting with a reference is text
 after an ending tag

---
 vtdxml/parser/process_end_tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 6ac75ae..1ca608d 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -46,7 +46,7 @@ func (p *VtdParser) processEndTag() (State, error) {
 			if err := p.handleOtherTextChar(p.currentChar); err != nil {
 				return StateInvalid, err
 			}
-			return StateLtSeen, nil
+			return StateText, nil
 		}
 	}
 	return StateDocEnd, nil
-- 
2.43.0


From 1ea2e3bd72641d8739ea3effdf199caf7f0e19ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:28 +0000
Subject: [PATCH 36/50] fix: NewVtdNav validates its arguments

---
 vtdxml/navigation/vtd_nav.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/vtdxml/navigation/vtd_nav.go b/vtdxml/navigation/vtd_nav.go
index 9e06357..1d42982 100644
--- a/vtdxml/navigation/vtd_nav.go
+++ b/vtdxml/navigation/vtd_nav.go
@@ -3,8 +3,12 @@ package navigation
 import (
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
+// maxDepth is the deepest element level a token record can hold
+const maxDepth = 254
+
 type Nav interface {
 	GetEncoding() common.FormatEncoding
 
@@ -47,7 +51,21 @@ func NewVtdNav(
 	bytes []byte,
 	vtdBuffer, l1Buffer, l2Buffer, l3Buffer buffer.LongBuffer,
 ) (*VtdNav, error) {
-	// TODO validate arguments
+	if depth < 0 || depth > maxDepth {
+		return nil, erroring.NewInvalidArgumentError("depth", erroring.IndexOutOfRange, nil)
+	}
+	if vtdBuffer == nil {
+		return nil, erroring.NewInvalidArgumentError("vtdBuffer", erroring.CannotBeNil, nil)
+	}
+	if l1Buffer == nil {
+		return nil, erroring.NewInvalidArgumentError("l1Buffer", erroring.CannotBeNil, nil)
+	}
+	if l2Buffer == nil {
+		return nil, erroring.NewInvalidArgumentError("l2Buffer", erroring.CannotBeNil, nil)
+	}
+	if l3Buffer == nil {
+		return nil, erroring.NewInvalidArgumentError("l3Buffer", erroring.CannotBeNil, nil)
+	}
 	n := &VtdNav{
 		rootIndex: rootIndex,
 		offset:    offset,
@@ -59,11 +77,11 @@ func NewVtdNav(
 		l1Buffer:  l1Buffer,
 		l2Buffer:  l2Buffer,
 		l3Buffer:  l3Buffer,
-		context:   make([]int32, 0, depth),
+		context:   make([]int32, 0, depth+1),
 		xmlChar:   common.NewXmlChar(),
 	}
 
-	for i := 0; i < int(depth); i++ {
+	for i := 0; i < int(depth)+1; i++ {
 		n.context = append(n.context, -1)
 	}
 
-- 
2.43.0


From 77014a9da9adf5d9687696bc8cd2a6289f0b49f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 37/50] fix: navigation does not run past the deepest element
 level

---
 vtdxml/navigation/to_element.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index ee81b84..b193417 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -49,6 +49,9 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 	if n.atTerminal {
 		return false, nil
 	}
+	if int(n.context[0])+1 >= len(n.context) {
+		return false, erroring.NewNavigationError(erroring.MaximumDepthExceeded, nil)
+	}
 	switch n.context[0] {
 	case -1:
 		{
-- 
2.43.0


From e534d714f37b78b81cfd3b67bc161063071b01c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:30 +0000
Subject: [PATCH 38/50] fix: ToElement does not swallow buffer errors

---
 vtdxml/navigation/to_element.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index b193417..ee4b4cb 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -105,7 +105,7 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			}
 			upper, err := n.l2Buffer.Upper32At(n.l2index)
 			if err != nil {
-				return false, nil
+				return false, err
 			}
 			n.context[2] = upper
 			return true, nil
@@ -139,7 +139,7 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			}
 			upper, err := n.l2Buffer.Upper32At(n.l2index)
 			if err != nil {
-				return false, nil
+				return false, err
 			}
 			n.context[3] = upper
 			return true, nil
@@ -158,7 +158,7 @@ func (n *VtdNav) toFirstChild() (bool, error) {
 	for index < n.vtdBuffer.GetSize() {
 		tokenType, err := n.GetTokenType(index)
 		if err != nil {
-			return false, nil
+			return false, err
 		}
 		depth, err := n.GetTokenDepth(index)
 		if err != nil {
@@ -184,7 +184,7 @@ func (n *VtdNav) toLastChild() (bool, error) {
 	for index < n.vtdBuffer.GetSize() {
 		tokenType, err := n.GetTokenType(index)
 		if err != nil {
-			return false, nil
+			return false, err
 		}
 		depth, err := n.GetTokenDepth(index)
 		if err != nil {
@@ -291,7 +291,7 @@ func (n *VtdNav) toNextSibling() (bool, error) {
 	for index < n.vtdBuffer.GetSize() {
 		tokenType, err := n.GetTokenType(index)
 		if err != nil {
-			return false, nil
+			return false, err
 		}
 		depth, err := n.GetTokenDepth(index)
 		if err != nil {
@@ -315,7 +315,7 @@ func (n *VtdNav) toPrevSibling() (bool, error) {
 	for index > int(n.context[n.context[0]-1]) {
 		tokenType, err := n.GetTokenType(index)
 		if err != nil {
-			return false, nil
+			return false, err
 		}
 		depth, err := n.GetTokenDepth(index)
 		if err != nil {
-- 
2.43.0


From 83f93c3274d3f4b2e7d98340a7e2599de43fe657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:31 +0000
Subject: [PATCH 39/50] fix: location cache moves read the level they move on

---
 vtdxml/navigation/to_element.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index ee4b4cb..75b3264 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -137,7 +137,7 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			} else {
 				n.l3index = int(n.l3upper)
 			}
-			upper, err := n.l2Buffer.Upper32At(n.l2index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, err
 			}
@@ -248,7 +248,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l2index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l2Buffer.Upper32At(n.l2index)
 			if err != nil {
 				return false, err
 			}
@@ -268,7 +268,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l3index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, err
 			}
-- 
2.43.0


From 93516a6eed7d744dee91fabadf9be8c6d10cd23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 40/50] fix: next sibling below the location cache is reachable

---
 vtdxml/navigation/to_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index 75b3264..ce72b47 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -298,7 +298,7 @@ func (n *VtdNav) toNextSibling() (bool, error) {
 			return false, err
 		}
 		if common.Token(tokenType) == common.TokenStartingTag {
-			if depth <= n.context[0] {
+			if depth < n.context[0] {
 				return false, nil
 			} else if depth == n.context[0] {
 				n.context[n.context[0]] = int32(index)
-- 
2.43.0


From a6934b795402577b3ea943d4d5d3ae3f9bea3141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 41/50] fix: navigator resolves decimal, &amp; and &apos;
 references

---
 vtdxml/navigation/get_char_resolved.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index fa954b5..b39a2f2 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -78,6 +78,7 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					offset++
 					ch2, err = n.getCharUnit(offset)
 					if err != nil {
 						return 0, 0, err
@@ -98,13 +99,13 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			}
 			if ch2 == 'm' {
 				// checks that the sequence matcher &amp;
-				if err := checkSeq(offset, "p;"); err != nil {
+				if err := checkSeq(offset+1, "p;"); err != nil {
 					return 0, 0, err
 				}
 				return 5, '&', nil
 			} else if ch2 == 'p' {
 				// checks that the sequence matcher &apos;
-				if err := checkSeq(offset, "os;"); err != nil {
+				if err := checkSeq(offset+1, "os;"); err != nil {
 					return 0, 0, err
 				}
 				return 6, '\'', nil
-- 
2.43.0


From 5ff305f6daa0b4cf1c523202c60ad05e290675d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 42/50] fix: navigator rejects overflowing numeric character
 references

---
 vtdxml/navigation/get_char_resolved.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index b39a2f2..4f54213 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -1,6 +1,8 @@
 package navigation
 
 import (
+	"unicode"
+
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
@@ -68,6 +70,9 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -78,6 +83,9 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					offset++
 					ch2, err = n.getCharUnit(offset)
 					if err != nil {
-- 
2.43.0


From dedc9afb4cc0e97ceeeafa89a57b8954f01c7f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 43/50] fix: carriage return at the end of the document is a
 line feed

---
 vtdxml/navigation/get_char_resolved.go | 27 ++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index 4f54213..16d8d55 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -193,49 +193,52 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 	switch n.encoding {
 	case common.FormatAscii:
 		{
-			if b == '\r' {
+			if b == '\r' && offset+1 < n.xmlBuffer.GetSize() {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
 				if ifErr != nil {
-					return 0, nil
+					return 0, ifErr
 				}
 				if b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
-				} else {
-					return uint64(int('\n') | (1 << 32)), nil
 				}
 			}
+			if b == '\r' {
+				return uint64(int('\n') | (1 << 32)), nil
+			}
 
 			return uint64(int(b) | (1 << 32)), nil
 		}
 	case common.FormatIso88591:
 		{
-			if b == '\r' {
+			if b == '\r' && offset+1 < n.xmlBuffer.GetSize() {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
 				if ifErr != nil {
-					return 0, nil
+					return 0, ifErr
 				}
 				if b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
-				} else {
-					return uint64(int('\n') | (1 << 32)), nil
 				}
 			}
+			if b == '\r' {
+				return uint64(int('\n') | (1 << 32)), nil
+			}
 
 			return uint64((int(b) & 0xFF) | (1 << 32)), nil
 		}
 	case common.FormatUtf8:
 		{
-			if b == '\r' {
+			if b == '\r' && offset+1 < n.xmlBuffer.GetSize() {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
 				if ifErr != nil {
-					return 0, nil
+					return 0, ifErr
 				}
 				if b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
-				} else {
-					return uint64(int('\n') | (1 << 32)), nil
 				}
 			}
+			if b == '\r' {
+				return uint64(int('\n') | (1 << 32)), nil
+			}
 
 			return uint64(int(b) | (1 << 32)), nil
 		}
-- 
2.43.0


From 2cbf2b2de3a9541cc2428edd3b0dfb35456c4028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 44/50] fix: token length sums the chunks of the token only

---
 vtdxml/navigation/common.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/vtdxml/navigation/common.go b/vtdxml/navigation/common.go
index e079b6e..58d5684 100644
--- a/vtdxml/navigation/common.go
+++ b/vtdxml/navigation/common.go
@@ -91,27 +91,29 @@ func (n *VtdNav) GetTokenLength(index int) (int32, error) {
 			if caseErr != nil {
 				return 0, caseErr
 			}
-			var offset int32
-			var tokenTypeNew, tokenOffsetNew, tokenDepthNew int32
-			tokenDepthNew = depth
-			tokenTypeNew = tokenType
-
-			for i := index; i < n.vtdBuffer.GetSize() &&
-				depth == tokenDepthNew &&
-				tokenType == tokenTypeNew &&
-				offset == tokenOffsetNew; i++ {
-
+			var nextOffset uint64
+			for i := index; i < n.vtdBuffer.GetSize(); i++ {
 				val, forErr := n.vtdBuffer.LongAt(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				length += (uint64(val) & common.MaskTokenFullLength) >> 32
-
-				tokenOffsetNew, forErr = n.GetTokenOffset(i)
+				chunkType, forErr := n.GetTokenType(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				tokenOffsetNew = int32((uint64(val) & common.MaskTokenFullLength) >> 32)
+				chunkDepth, forErr := n.GetTokenDepth(i)
+				if forErr != nil {
+					return 0, forErr
+				}
+				// a long token continues in the next record of the same type and
+				// depth that starts where the previous one has ended
+				chunkOffset := uint64(val) & common.MaskTokenOffset
+				if i > index && (chunkType != tokenType || chunkDepth != depth || chunkOffset != nextOffset) {
+					break
+				}
+				chunkLength := (uint64(val) & common.MaskTokenFullLength) >> 32
+				length += chunkLength
+				nextOffset = chunkOffset + chunkLength
 			}
 			return int32(length), nil
 		}
-- 
2.43.0


From 12b2429d569565c40f0cf95a0b354ddf88dffe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 45/50] fix: GetNav reports that it has no navigator to return

---
 vtdxml/parser/get_nav.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/get_nav.go b/vtdxml/parser/get_nav.go
index e545f9a..ed88dec 100644
--- a/vtdxml/parser/get_nav.go
+++ b/vtdxml/parser/get_nav.go
@@ -1,9 +1,12 @@
 package parser
 
-import "github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+import (
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+)
 
 // GetNav function returns VTD navigation object after parsing
 func (p *VtdParser) GetNav() (*navigation.VtdNav, error) {
 	// TODO
-	return nil, nil
+	return nil, erroring.NewInternalError("navigation over a parsed document is not supported yet", nil)
 }
-- 
2.43.0


From 0dcc2a65be7915ab6fc72fde3aaa69bf7005f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 46/50] fix: a failed ToElement leaves the cursor where it was

---
 vtdxml/navigation/to_element.go | 88 +++++++++++++++++----------------
 1 file changed, 46 insertions(+), 42 deletions(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index ce72b47..86735fc 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -63,16 +63,16 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			if n.l1Buffer.GetSize() == 0 {
 				return false, nil
 			}
-			n.context[0] = 1
-			if dir == FirstChild {
-				n.l1index = 0
-			} else {
-				n.l1index = n.l1Buffer.GetSize() - 1
+			l1index := 0
+			if dir == LastChild {
+				l1index = n.l1Buffer.GetSize() - 1
 			}
-			val, err := n.l1Buffer.Upper32At(n.l1index)
+			val, err := n.l1Buffer.Upper32At(l1index)
 			if err != nil {
 				return false, err
 			}
+			n.l1index = l1index
+			n.context[0] = 1
 			n.context[1] = val
 			return true, nil
 		}
@@ -82,31 +82,30 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			if err != nil {
 				return false, err
 			}
-			n.l2lower = lower
-			if n.l2lower == -1 {
+			if lower == -1 {
 				return false, nil
 			}
-			n.context[0] = 2
-			n.l2upper = int32(n.l2Buffer.GetSize() - 1)
+			l2lower, l2upper := lower, int32(n.l2Buffer.GetSize()-1)
 			for i := n.l1index + 1; i < n.l1Buffer.GetSize(); i++ {
 				lower, err = n.l1Buffer.Lower32At(i)
 				if err != nil {
 					return false, err
 				}
 				if uint32(lower) != uint32(0xffffffff) {
-					n.l2upper = lower - 1
+					l2upper = lower - 1
 					break
 				}
 			}
-			if dir == FirstChild {
-				n.l2index = int(n.l2lower)
-			} else {
-				n.l2index = int(n.l2upper)
+			l2index := int(l2lower)
+			if dir == LastChild {
+				l2index = int(l2upper)
 			}
-			upper, err := n.l2Buffer.Upper32At(n.l2index)
+			upper, err := n.l2Buffer.Upper32At(l2index)
 			if err != nil {
 				return false, err
 			}
+			n.l2lower, n.l2upper, n.l2index = l2lower, l2upper, l2index
+			n.context[0] = 2
 			n.context[2] = upper
 			return true, nil
 		}
@@ -116,31 +115,30 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			if err != nil {
 				return false, err
 			}
-			n.l3lower = lower
-			if n.l3lower == -1 {
-				return false, err
+			if lower == -1 {
+				return false, nil
 			}
-			n.context[0] = 3
-			n.l3upper = int32(n.l3Buffer.GetSize() - 1)
+			l3lower, l3upper := lower, int32(n.l3Buffer.GetSize()-1)
 			for i := n.l2index + 1; i < n.l2Buffer.GetSize(); i++ {
 				lower, err = n.l2Buffer.Lower32At(i)
 				if err != nil {
 					return false, err
 				}
 				if uint32(lower) != uint32(0xffffffff) {
-					n.l3upper = lower - 1
+					l3upper = lower - 1
 					break
 				}
 			}
-			if dir == FirstChild {
-				n.l3index = int(n.l3lower)
-			} else {
-				n.l3index = int(n.l3upper)
+			l3index := int(l3lower)
+			if dir == LastChild {
+				l3index = int(l3upper)
 			}
-			upper, err := n.l3Buffer.Upper32At(n.l3index)
+			upper, err := n.l3Buffer.Upper32At(l3index)
 			if err != nil {
 				return false, err
 			}
+			n.l3lower, n.l3upper, n.l3index = l3lower, l3upper, l3index
+			n.context[0] = 3
 			n.context[3] = upper
 			return true, nil
 		}
@@ -217,61 +215,67 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 		return false, nil
 	case 1:
 		{
+			l1index := n.l1index
 			if dir == NextSibling {
-				if n.l1index+1 >= n.l1Buffer.GetSize() {
+				if l1index+1 >= n.l1Buffer.GetSize() {
 					return false, nil
 				}
-				n.l1index++
+				l1index++
 			} else {
-				if n.l1index-1 < 0 {
+				if l1index-1 < 0 {
 					return false, nil
 				}
-				n.l1index--
+				l1index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l1Buffer.Upper32At(l1index)
 			if err != nil {
 				return false, err
 			}
+			n.l1index = l1index
 			n.context[1] = upper
 			return true, nil
 		}
 	case 2:
 		{
+			l2index := n.l2index
 			if dir == NextSibling {
-				if n.l2index+1 > int(n.l2upper) {
+				if l2index+1 > int(n.l2upper) {
 					return false, nil
 				}
-				n.l2index++
+				l2index++
 			} else {
-				if n.l2index-1 < int(n.l2lower) {
+				if l2index-1 < int(n.l2lower) {
 					return false, nil
 				}
-				n.l2index--
+				l2index--
 			}
-			upper, err := n.l2Buffer.Upper32At(n.l2index)
+			upper, err := n.l2Buffer.Upper32At(l2index)
 			if err != nil {
 				return false, err
 			}
+			n.l2index = l2index
 			n.context[2] = upper
 			return true, nil
 		}
 	case 3:
 		{
+			l3index := n.l3index
 			if dir == NextSibling {
-				if n.l3index+1 > int(n.l3upper) {
+				if l3index+1 > int(n.l3upper) {
 					return false, nil
 				}
-				n.l3index++
+				l3index++
 			} else {
-				if n.l3index-1 < int(n.l3lower) {
+				if l3index-1 < int(n.l3lower) {
 					return false, nil
 				}
-				n.l3index--
+				l3index--
 			}
-			upper, err := n.l3Buffer.Upper32At(n.l3index)
+			upper, err := n.l3Buffer.Upper32At(l3index)
 			if err != nil {
 				return false, err
 			}
+			n.l3index = l3index
 			n.context[3] = upper
 			return true, nil
 		}
-- 
2.43.0


From 2fb41f6f26da97afa70538dcdd499e58b0275642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 47/50] fix: &apos; in a namespace URL is six characters long

---
 vtdxml/parser/process_attr_val.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 332514e..669bf65 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -386,7 +386,7 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 					if err := checkSeq("os;", offset, 1); err != nil {
 						return 0, err
 					}
-					inc = 5
+					inc = 6
 					val = '\''
 				}
 			} else {
-- 
2.43.0


From 5211451f70bdfd467c3ceca1086dc8b462018cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:52 +0000
Subject: [PATCH 48/50] fix: looking past a carriage return at the largest
 offset overflowed

---
 vtdxml/reader/ascii_reader.go | 2 +-
 vtdxml/reader/utf8_reader.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index e96f7c3..ccfab01 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -46,7 +46,7 @@ func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[int(offset)+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 233149f..d0bb2f0 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -46,7 +46,7 @@ func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[int(offset)+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
-- 
2.43.0


From 3fddba29ae2a52a3e24505f24e8f30cd4e7e04c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:47 +0000
Subject: [PATCH 49/50] fix: the size of the document is checked however short
 the window is

---
 vtdxml/parser/common.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 9e293ba..c703fe2 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -347,9 +347,7 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 func (p *VtdParser) decideEncoding() error {
 	if p.endOffset-p.offset < 4 {
 		// too short to hold any of the encoding signatures
-		return nil
-	}
-	if int32(p.xmlDoc[p.offset]) == -2 {
+	} else if int32(p.xmlDoc[p.offset]) == -2 {
 		p.increment = 2
 		if int32(p.xmlDoc[p.offset+1]) == -1 {
 			p.offset += 2
-- 
2.43.0


From e76393ce2c25384fdf154db64f884e9c7b5c29b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:39 +0000
Subject: [PATCH 50/50] fix: cp125 without a code page is not an encoding, and
 its record spilled past the name

---
 vtdxml/parser/process_dec_attr_name.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 8a4a66c..2a0bf2e 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -453,7 +453,9 @@ func (p *VtdParser) setWinEncoding() error {
 	// } else {
 	// 	return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	// }
-	return nil
+	// none of the code pages can be read yet, and the name of the encoding
+	// without its last digit is not an encoding
+	return erroring.NewParseError("unsupported document encoding", p.fmtLine(), nil)
 }
 
 func (p *VtdParser) setIsoEncoding() (int, error) {
-- 
2.43.0

