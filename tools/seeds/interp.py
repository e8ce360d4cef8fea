M = "github.com/alexZaicev/go-vtd-xml/vtdxml/"
def prog(imports, body, pkg, extra=""):
    return "package %s\n\nimport (\n%s\n)\n%s\nfunc TestZzDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t"%s"' % i for i in ["testing"] + imports), extra, body)

seed("s09-ascii-table", "C09",
 [("vtdxml/reader/ascii_reader.go", "\treturn ch <= unicode.MaxASCII", "\treturn asciiClass[ch] != 0 && ch <= unicode.MaxASCII"),
  ("vtdxml/reader/ascii_reader.go", "// isASCII function", "// asciiClass marks the characters of the ASCII set\nvar asciiClass = func() (t [unicode.MaxASCII + 1]uint8) {\n\tfor i := range t {\n\t\tt[i] = 1\n\t}\n\treturn\n}()\n\n// isASCII function")],
 "vtdxml/reader", prog([M+"reader"], '''
	r, err := reader.NewAsciiReader([]byte("ab\\xe9c"), 0, 4)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 4; i++ {
		_, _ = r.GetChar()
	}''', "reader_test"),
 "a byte of 128 or more in a document that is read as ASCII",
 "the class table the ASCII reader looks characters up in ends at 127")

seed("s09-seq", "C09",
 [("vtdxml/reader/utf8_reader.go", "\tfor _, ch := range seq {\n\t\tif !r.SkipChar(uint32(ch)) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true",
   "\tif r.offset < r.endOffset && string(r.xmlDoc[r.offset:r.offset+len(seq)]) == seq {\n\t\tr.offset += len(seq)\n\t\treturn true\n\t}\n\treturn false")],
 "vtdxml/reader", prog([M+"reader"], '''
	doc := []byte("<a>CDATA[x")
	r, err := reader.NewUtf8Reader(doc, 3, 6)
	if err != nil {
		t.Fatal(err)
	}
	if r.SkipCharSeq("CDATA[") {
		t.Fatal("the sequence ends past the window")
	}
	doc = []byte("<![CD")
	r, _ = reader.NewUtf8Reader(doc, 3, 5)
	if r.SkipCharSeq("CDATA[") {
		t.Fatal("the sequence ends past the document")
	}''', "reader_test"),
 "a multi-character sequence looked for less than its length before the end of the window",
 "SkipCharSeq compares a slice of the document with the sequence and checks only that its first byte is in the window")

seed("s09-cap", "C09",
 [("vtdxml/reader/utf8_reader.go", "endOffset > len(xmlDoc)", "endOffset > cap(xmlDoc)")],
 "vtdxml/reader", prog([M+"reader"], '''
	doc := make([]byte, 3, 64)
	copy(doc, "abc")
	r, err := reader.NewUtf8Reader(doc, 0, 5)
	if err != nil {
		return
	}
	for i := 0; i < 5; i++ {
		_, _ = r.GetChar()
	}''', "reader_test"),
 "a document slice with spare capacity and an end offset past its length",
 "the end of the window is checked against the capacity of the document, not its length")

seed("s09-eof", "C09",
 [("vtdxml/reader/ascii_reader.go", "\tif r.offset >= r.endOffset {\n\t\treturn 0, erroring.NewEOFError(erroring.XmlIncomplete)\n\t}\n\tch := r.xmlDoc[r.offset]\n\tr.offset++",
   "\tif r.offset >= r.endOffset && r.offset >= len(r.xmlDoc) {\n\t\treturn 0, erroring.NewEOFError(erroring.XmlIncomplete)\n\t}\n\tch := r.xmlDoc[r.offset]\n\tr.offset++")],
 "vtdxml/reader", prog([M+"reader"], '''
	r, err := reader.NewAsciiReader([]byte("abcdef"), 0, 2)
	if err != nil {
		t.Fatal(err)
	}
	_, _ = r.GetChar()
	_, _ = r.GetChar()
	if ch, err := r.GetChar(); err == nil {
		t.Fatalf("read %c past the window", ch)
	}''', "reader_test"),
 "a window that ends before the document does",
 "the ASCII reader goes on to the end of the document instead of the end of its window")

seed("s10-exp", "C10",
 [("vtdxml/buffer/int_buffer.go", "\t\tif size >= 0 {\n\t\t\tb.pageSize = 1 << size\n\t\t\tb.exp = size\n\t\t\tb.r = b.pageSize - 1\n\t\t}", "\t\tb.exp = size\n\t\tif size >= 0 {\n\t\t\tb.pageSize = 1 << size\n\t\t\tb.r = b.pageSize - 1\n\t\t}")],
 "vtdxml/buffer", prog([M+"buffer"], '''
	b, err := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(-1))
	if err != nil {
		return
	}
	_ = b.Append(1)
	_, _ = b.IntAt(0)''', "buffer_test"),
 "a negative page size, followed by any operation on the buffer",
 "the page exponent is stored before the option is validated: the shift by it panics")

seed("s10-prealloc", "C10",
 [("vtdxml/buffer/int_buffer.go", "\tvar intArray []int32\n", "\tintArray := make([]int32, 0, b.capacity)\n")],
 "vtdxml/buffer", prog([M+"buffer"], '''
	b, err := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(60))
	if err != nil {
		return
	}
	_ = b.Append(1)
	if a, err := b.ToIntArray(); err != nil || len(a) != 1 {
		t.Fatal(a, err)
	}''', "buffer_test"),
 "a buffer with a very large page size: nothing is allocated for a page until it is used, but its capacity is the page size",
 "ToIntArray allocates the capacity of the buffer, which is out of range for make")

seed("s10-last-page", "C10",
 [("vtdxml/buffer/long_buffer.go", "\tpageNum := index >> b.exp\n\tbufferSlice, err := b.get(pageNum)\n\tif err != nil {\n\t\treturn erroring.NewInvalidArgumentError(\"index\", erroring.IndexOutOfRange, err)\n\t}\n\toffset := index & b.r\n",
   "\tpageNum := index >> b.exp\n\tbufferSlice, err := b.get(pageNum)\n\tif err != nil {\n\t\treturn erroring.NewInvalidArgumentError(\"index\", erroring.IndexOutOfRange, err)\n\t}\n\toffset, last := index&b.r, len(b.buffer)-1\n\tif pageNum < last {\n\t\t// every page but the last one is full\n\t\tbufferSlice[offset] = value\n\t\treturn nil\n\t}\n")],
 "vtdxml/buffer", prog([M+"buffer"], """
	b, _ := buffer.NewFastLongBuffer()
	for i := 0; i < 2000; i++ {
		_ = b.Append(int64(i))
	}
	b.Clear()
	if err := b.ModifyEntry(5, 1); err == nil {
		t.Fatal("an entry of a cleared buffer is modified")
	}""", "buffer_test"),
 "a buffer that has been cleared or cut after it had grown past its first page",
 "ModifyEntry takes every page but the last for full and skips the check against the size")

NAVT = '''
func mkNav(t *testing.T, doc string, enc common.FormatEncoding, toks ...int64) *navigation.VtdNav {
	mk := func() buffer.LongBuffer { b, _ := buffer.NewFastLongBuffer(); return b }
	v := mk()
	for _, x := range toks {
		_ = v.Append(x)
	}
	n, err := navigation.NewVtdNav(0, 0, int32(len(doc)), 8, enc, true, []byte(doc)[:len(doc):len(doc)], v, mk(), mk(), mk())
	if err != nil {
		t.Fatal(err)
	}
	return n
}
'''
NI = [M+"buffer", M+"common", M+"navigation"]
seed("s14-grow", "C14",
 [("vtdxml/navigation/to_string.go", "\tvar buffer bytes.Buffer\n\n\tendOffset := offset + length\n\tfor i := offset; i < endOffset; i++ {\n\t\tch, err := n.getChar(int(i))",
   "\tvar buffer bytes.Buffer\n\tbuffer.Grow(int(length))\n\n\tendOffset := offset + length\n\tfor i := offset; i < endOffset; i++ {\n\t\tch, err := n.getChar(int(i))")],
 "vtdxml/navigation", prog(NI, '''
	n := mkNav(t, "<a/>", common.FormatUtf8)
	_, _ = n.ToRawStringAtRange(2, -1)''', "navigation_test", NAVT),
 "a range of negative length",
 "the string buffer is grown by the length of the range, which panics for a negative one")

seed("s14-width", "C14",
 [("vtdxml/navigation/get_char_resolved.go", "\t// TODO implement\n\treturn 0, nil\n}\n\nfunc (n *VtdNav) getCharUtf16BE", "\t// TODO implement\n\treturn unitWidth[n.encoding] << 32, nil\n}\n\n// unitWidth is the number of bytes a character takes in each encoding\nvar unitWidth = [common.FormatWin1258 + 1]uint64{common.FormatUtf16BE: 2, common.FormatUtf16LE: 2}\n\nfunc (n *VtdNav) getCharUtf16BE")],
 "vtdxml/navigation", prog(NI, """
	n := mkNav(t, "<a/>", common.FormatEncoding(-1))
	_, _ = n.ToRawStringAtRange(0, 2)""", "navigation_test", NAVT),
 "a navigator built with an encoding below the first one, which the constructor does not refuse",
 "the width table of the encodings is indexed without a check for a negative encoding")

seed("s14-rest", "C14",
 [("vtdxml/navigation/to_element.go", "\t\tif common.Token(tokenType) == common.TokenStartingTag {\n\t\t\tif depth == n.context[0] {\n\t\t\t\tn.context[n.context[0]] = int32(index)\n\t\t\t\treturn true, nil\n\t\t\t}\n\t\t}\n\t\tindex--",
   "\t\tif common.Token(tokenType) == common.TokenStartingTag {\n\t\t\tif depth == n.context[0] {\n\t\t\t\tn.context[n.context[0]] = int32(index)\n\t\t\t\treturn true, nil\n\t\t\t} else if depth > n.context[0] {\n\t\t\t\t// forget what has been visited below\n\t\t\t\tn.context[depth] = -1\n\t\t\t}\n\t\t}\n\t\tindex--")],
 "vtdxml/navigation", prog(NI, '''
	tag := func(depth, off int64) int64 { return depth<<52 | 1<<32 | off }
	n := mkNav2(t, tag(0, 0), tag(1, 1), tag(2, 2), tag(3, 3), tag(4, 4), tag(5, 5), tag(9, 9), tag(5, 6))
	for i := 0; i < 6; i++ {
		_, _ = n.ToElement(navigation.FirstChild)
	}
	_, _ = n.ToElement(navigation.LastChild)
	_, _ = n.ToElement(navigation.NextSibling)
	_, _ = n.ToElement(navigation.PrevSibling)''', "navigation_test", '''
func mkNav2(t *testing.T, toks ...int64) *navigation.VtdNav {
	mk := func(xs ...int64) buffer.LongBuffer {
		b, _ := buffer.NewFastLongBuffer()
		for _, x := range xs {
			_ = b.Append(x)
		}
		return b
	}
	n, err := navigation.NewVtdNav(0, 0, 8, 6, common.FormatUtf8, true, []byte("<a/>abcd"), mk(toks...), mk(1<<32), mk(2<<32), mk(3<<32|0xffffffff))
	if err != nil {
		t.Fatal(err)
	}
	return n
}
'''),
 "a previous-sibling move below level 3 over a record deeper than the depth the navigator was built with",
 "the move clears the context entry of every deeper level it passes, without a check that there is one")

seed("s15-fold", "C15",
 [("vtdxml/navigation/to_string.go", "\tfor i := offset; i < endOffset; i++ {\n\t\tch, err := n.getChar(int(i))\n\t\tif err != nil {\n\t\t\treturn \"\", err\n\t\t}\n\t\tbuffer.WriteByte(byte(ch))\n\t}",
   "\tfor i := offset; i < endOffset; {\n\t\tch, err := n.getChar(int(i))\n\t\tif err != nil {\n\t\t\treturn \"\", err\n\t\t}\n\t\tbuffer.WriteByte(byte(ch))\n\t\t// the upper half is the number of units the character takes\n\t\tif n.encoding == common.FormatUtf16BE || n.encoding == common.FormatUtf16LE {\n\t\t\ti += int32(ch >> 32)\n\t\t} else {\n\t\t\ti++\n\t\t}\n\t}")],
 "vtdxml/navigation", prog(NI+["time"], '''
	n := mkNav(t, "\\x00<\\x00a", common.FormatUtf16BE)
	done := make(chan bool, 1)
	go func() {
		_, _ = n.ToRawStringAtRange(0, 2)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(100 * time.Millisecond):
		panic("does not come to an end")
	}''', "navigation_test", NAVT),
 "a document in one of the encodings whose characters are not decoded yet: their length is reported as 0",
 "the raw text loop advances by the decoded length of the character, which may be 0")

seed("s15-next", "C15",
 [("vtdxml/navigation/to_element.go", "func (n *VtdNav) toNextSibling() (bool, error) {\n\tindex := int(n.context[n.context[0]] + 1)\n\tfor index < n.vtdBuffer.GetSize() {\n\t\ttokenType, err := n.GetTokenType(index)\n\t\tif err != nil {\n\t\t\treturn false, err\n\t\t}\n",
   "func (n *VtdNav) toNextSibling() (bool, error) {\n\tindex := int(n.context[n.context[0]] + 1)\n\tfor index < n.vtdBuffer.GetSize() {\n\t\ttokenType, err := n.GetTokenType(index)\n\t\tif err != nil {\n\t\t\treturn false, err\n\t\t}\n\t\tif common.Token(tokenType) == common.TokenComment {\n\t\t\t// comments have no depth worth a look\n\t\t\tcontinue\n\t\t}\n")],
 "vtdxml/navigation", prog(NI+["time"], """
	tag := func(depth, off int64) int64 { return depth<<52 | 1<<32 | off }
	com := int64(common.TokenComment)<<60 | 4<<52 | 1<<32 | 3
	mk := func(xs ...int64) buffer.LongBuffer {
		b, _ := buffer.NewFastLongBuffer()
		for _, x := range xs {
			_ = b.Append(x)
		}
		return b
	}
	n, err := navigation.NewVtdNav(0, 0, 8, 6, common.FormatUtf8, true, []byte("<a/>abcd"),
		mk(tag(0, 0), tag(1, 1), tag(2, 2), tag(3, 3), tag(4, 4), com, tag(4, 6)), mk(1<<32), mk(2<<32), mk(3<<32|0xffffffff))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 5; i++ {
		if ok, err := n.ToElement(navigation.FirstChild); !ok || err != nil {
			t.Fatal(i, ok, err)
		}
	}
	done := make(chan bool, 1)
	go func() {
		_, _ = n.ToElement(navigation.NextSibling)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(300 * time.Millisecond):
		panic("does not come to an end")
	}""", "navigation_test"),
 "a comment between siblings below level 3",
 "the scan for the next sibling goes round again on a comment without moving on")

C16T = """
	tag := func(depth, off int64) int64 { return depth<<52 | 1<<32 | off }
	mk := func(xs ...int64) buffer.LongBuffer {
		b, _ := buffer.NewFastLongBuffer()
		for _, x := range xs {
			_ = b.Append(x)
		}
		return b
	}
	n, err := navigation.NewVtdNav(0, 0, 8, 6, common.FormatUtf8, true, []byte("<a/>abcd"),
		mk(tag(0, 0), tag(1, 1), tag(2, 2), tag(3, 3), tag(4, 4), tag(5, 5), tag(5, 5), tag(4, 6), tag(3, 7)), mk(1<<32), mk(2<<32), mk(3<<32|0xffffffff))
	if err != nil {
		t.Fatal(err)
	}
"""
seed("s16-scan", "C16",
 [("vtdxml/navigation/to_element.go", "\t\t\t} else if depth == n.context[0] {\n\t\t\t\tn.context[n.context[0]] = int32(index)\n\t\t\t\treturn true, nil\n\t\t\t}",
   "\t\t\t}\n\t\t\tn.context[n.context[0]] = int32(index)\n\t\t\tif depth == n.context[0] {\n\t\t\t\treturn true, nil\n\t\t\t}")],
 "vtdxml/navigation", prog(NI, C16T + """
	for i := 0; i < 5; i++ {
		_, _ = n.ToElement(navigation.FirstChild)
	}
	_, _ = n.ToElement(navigation.NextSibling)
	_, _ = n.ToElement(navigation.PrevSibling)
	// the second element of level 4 has no next sibling
	_, _ = n.ToElement(navigation.NextSibling)
	before, _ := n.GetCurrentIndex()
	ok, _ := n.ToElement(navigation.NextSibling)
	after, _ := n.GetCurrentIndex()
	if !ok && before != after {
		t.Fatal("moved", before, after)
	}
	m, _ := navigation.NewVtdNav(0, 0, 8, 6, common.FormatUtf8, true, []byte("<a/>abcd"),
		mk(tag(0, 0), tag(1, 1), tag(2, 2), tag(3, 3), tag(4, 4), tag(5, 5)), mk(1<<32), mk(2<<32), mk(3<<32|0xffffffff))
	for i := 0; i < 5; i++ {
		_, _ = m.ToElement(navigation.FirstChild)
	}
	before, _ = m.GetCurrentIndex()
	ok, _ = m.ToElement(navigation.NextSibling)
	after, _ = m.GetCurrentIndex()
	if !ok && before != after {
		t.Fatal("moved", before, after)
	}""", "navigation_test"),
 "a next-sibling move below level 3 from the last sibling, which has children",
 "the cursor follows the scan for the next sibling and stays where the scan ended")

seed("s16-last", "C16",
 [("vtdxml/navigation/to_element.go", "\t\t\tif depth <= n.context[0] {\n\t\t\t\tbreak\n\t\t\t} else if depth == (n.context[0] + 1) {\n\t\t\t\tlastIndex = index\n\t\t\t}\n\t\t}\n\t\tindex++\n\t}\n\tif lastIndex == -1 {\n\t\treturn false, nil\n\t} else {\n\t\tn.context[0] += 1\n\t\tn.context[n.context[0]] = int32(lastIndex)\n\t\treturn true, nil\n\t}",
   "\t\t\tif depth <= n.context[0] {\n\t\t\t\tbreak\n\t\t\t} else if depth == (n.context[0] + 1) {\n\t\t\t\tlastIndex = index\n\t\t\t}\n\t\t}\n\t\tindex++\n\t}\n\tn.context[0] += 1\n\tif lastIndex == -1 {\n\t\treturn false, nil\n\t}\n\tn.context[n.context[0]] = int32(lastIndex)\n\treturn true, nil")],
 "vtdxml/navigation", prog(NI, C16T + """
	for i := 0; i < 5; i++ {
		_, _ = n.ToElement(navigation.FirstChild)
	}
	_, _ = n.ToElement(navigation.FirstChild)
	before, _ := n.GetCurrentIndex()
	ok, _ := n.ToElement(navigation.LastChild)
	after, _ := n.GetCurrentIndex()
	if !ok && before != after {
		t.Fatal("moved", before, after)
	}""", "navigation_test"),
 "a last-child move on a childless element below level 3",
 "the depth of the cursor is raised before it is known that there is a child")
