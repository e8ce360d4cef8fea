M = "github.com/alexZaicev/go-vtd-xml/vtdxml/"
def prog(imports, body, pkg, extra=""):
    return "package %s\n\nimport (\n%s\n)\n%s\nfunc TestZzDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t"%s"' % i for i in ["testing"] + imports), extra, body)

PARSE = '''
func parse(t *testing.T, doc string, opts ...parser.Option) error {
	t.Helper()
	type res struct {
		err error
		pan interface{}
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		defer func() {
			r.pan = recover()
			ch <- r
		}()
		p, err := parser.NewVtdParser(append([]parser.Option{parser.WithXmlDoc([]byte(doc))}, opts...)...)
		if err != nil {
			r.err = err
			return
		}
		r.err = p.Parse()
	}()
	select {
	case r := <-ch:
		if r.pan != nil {
			t.Fatal("panic:", r.pan)
		}
		return r.err
	case <-time.After(20 * time.Second):
		t.Fatal("does not end")
	}
	return nil
}
'''
PI = ["time", M+"parser"]

seed("s01-endtag", "C01",
 [("vtdxml/parser/process_end_tag.go", "\tif p.offset >= p.endOffset {\n\t\treturn StateInvalid, erroring.NewEOFError", "\tif p.lastOffset >= p.endOffset {\n\t\treturn StateInvalid, erroring.NewEOFError")],
 "vtdxml/parser", prog(PI, '''
	for _, doc := range []string{"<abc></ab", "<abc></abc", "<abc><d></d></abc", "<abc></"} {
		if parse(t, doc) == nil {
			t.Fatal("accepted", doc)
		}
	}''', "parser_test", PARSE),
 "a document that ends inside an end tag, with all that is left of it equal to the start tag",
 "the test for the end of the document looks at the start of the end tag instead of its end")

seed("s01-depth", "C01",
 [("vtdxml/parser/process_start_tag.go", "\tif p.depth > maxDepth {\n", "\tif p.depth > maxDepth && !p.nsAware || p.depth>>8 > 1 {\n")],
 "vtdxml/parser", prog(PI + ["strings"], '''
	for _, n := range []int{250, 255, 256, 257, 258, 600} {
		for _, ns := range []bool{false, true} {
			_ = parse(t, strings.Repeat("<a>", n)+strings.Repeat("</a>", n), parser.WithNameSpaceAware(ns))
		}
	}''', "parser_test", PARSE),
 "elements nested deeper than 256 with namespaces on",
 "the depth limit is not enforced when namespaces are on")

seed("s01-line", "C01",
 [("vtdxml/parser/common.go", "\tif p.encoding < common.FormatUtf16BE {\n\t\tfor so <= offset-1 {\n", "\tif p.encoding < common.FormatUtf16BE {\n\t\tfor so < offset || p.xmlDoc[so] == '\\r' {\n")],
 "vtdxml/parser", prog(PI, '''
	for _, doc := range []string{"<a><", "<a>&#1;", "<a></a>x", "<a b=\\"<", "<a></b>", "<a><?1", "<a>\\x01", "<a></a><"} {
		if parse(t, doc) == nil {
			t.Fatal("accepted", doc)
		}
	}''', "parser_test", PARSE),
 "an error reported at the very end of the document",
 "the line counter looks at the byte the error position points to, which may lie past the end")

seed("s02-zeros", "C02",
 [("vtdxml/parser/common.go", "\t\t\t\t\tif ch >= '0' && ch <= '9' {\n\t\t\t\t\t\tvalue = value*10 + (ch - '0')\n", "\t\t\t\t\tif ch == '0' && value == 0 {\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t} else if ch >= '0' && ch <= '9' {\n\t\t\t\t\t\tvalue = value*10 + (ch - '0')\n")],
 "vtdxml/parser", prog(PI, '''
	for _, doc := range []string{"<a>&#065;</a>", "<a>&#65;</a>", "<a>&#x041;</a>"} {
		if err := parse(t, doc); err != nil {
			t.Fatal(err)
		}
	}''', "parser_test", PARSE),
 "a decimal character reference with a leading zero",
 "leading zeros are skipped without reading the next character")

seed("s02-cr", "C02",
 [("vtdxml/parser/common.go", "\t\tif !p.xmlChar.IsSpaceChar(p.currentChar) {\n\t\t\treturn nil\n\t\t}\n\t}\n}", "\t\tif !p.xmlChar.IsSpaceChar(p.currentChar) {\n\t\t\treturn nil\n\t\t}\n\t\tif p.currentChar == '\\r' && p.lastChar == '\\r' && !p.skipChar('\\n') {\n\t\t\t// a carriage return of its own: look at it again as a line feed\n\t\t\tp.setOffset(p.offset - p.increment)\n\t\t}\n\t}\n}")],
 "vtdxml/parser", prog(PI, '''
	for _, doc := range []string{"<a>\\r\\n<b/>\\r\\n</a>", "<a>\\r<b/>\\r</a>", "<a>\\r\\r<b/></a>"} {
		if err := parse(t, doc); err != nil {
			t.Fatal(err)
		}
	}''', "parser_test", PARSE),
 "two carriage returns in a row in white space, without a line feed after them",
 "the reader is put back in front of the carriage return")

seed("s02-bracket", "C02",
 [("vtdxml/parser/process_pi_val.go", "\t\tif p.currentChar == '?' && p.skipChar('>') {\n\t\t\tbreak\n\t\t}\n", "\t\tif p.currentChar == '?' {\n\t\t\tfor !p.skipChar('>') {\n\t\t\t\tif !p.skipChar('?') && p.offset < p.endOffset && p.xmlDoc[p.offset] != '?' {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t}\n\t\t\tif p.xmlDoc[p.offset-1] == '>' {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n")],
 "vtdxml/parser", prog(PI, '''
	for _, doc := range []string{"<a><?pi v?></a>", "<a><?pi v??></a>", "<a><?pi v?v?></a>", "<a><?pi v?", "<a><?pi v??"} {
		_ = parse(t, doc)
	}''', "parser_test", PARSE),
 "a document that ends right after a question mark in a processing instruction",
 "the loop that skips question marks is left only by a character, and there is none at the end of the document")

RECORDS = '''
type rec struct{ kind, depth, length, offset int }

func records(t *testing.T, doc string, opts ...Option) ([]rec, error) {
	t.Helper()
	p, err := NewVtdParser(append([]Option{WithXmlDoc([]byte(doc))}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	perr := p.Parse()
	var rs []rec
	for i := 0; i < p.vtdBuffer.GetSize(); i++ {
		v, err := p.vtdBuffer.LongAt(i)
		if err != nil {
			t.Fatal(err)
		}
		u := uint64(v)
		rs = append(rs, rec{int(u >> 60), int(u >> 52 & 0xff), int(u >> 32 & 0xfffff), int(u & 0x3fffffff)})
	}
	return rs, perr
}
'''

seed("s04-prefix", "C04",
 [("vtdxml/parser/process_attr_name.go", "if p.length2 > maxPrefixLength || p.length1 > maxQnameLength {", "if p.length2 > maxQnameLength || p.length1 > maxQnameLength {")],
 "vtdxml/parser", prog(["strings"], '''
	for _, n := range []int{3, 500, 511, 512, 700, 1500} {
		rs, err := records(t, "<a "+strings.Repeat("p", n)+":b='1'/>")
		if err != nil {
			continue
		}
		for _, r := range rs {
			if r.kind == 2 && r.length>>11 != n {
				t.Fatal("prefix of", n, "recorded with", r.length>>11)
			}
		}
	}''', "parser", RECORDS),
 "an attribute whose prefix is longer than 511 bytes",
 "the prefix of an attribute is held to the limit of the whole name, and its length spills out of the nine bits it has")

seed("s04-split", "C04",
 [("vtdxml/parser/common.go", "\tif length > maxTokenLength {\n", "\tif length > maxTokenLength && depth < maxDepth || length > maxTokenLength<<1 {\n")],
 "vtdxml/parser", prog(["strings"], '''
	for _, d := range []int{1, 100, 254, 255} {
		for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 5} {
			rs, err := records(t, strings.Repeat("<a>", d)+strings.Repeat("x", n)+strings.Repeat("</a>", d))
			if err != nil {
				continue
			}
			sum := 0
			for _, r := range rs {
				if r.kind == 5 {
					sum += r.length
				}
			}
			if sum != n {
				t.Fatal("text of", n, "at depth", d, "recorded with", sum)
			}
		}
	}''', "parser", RECORDS),
 "more than a megabyte of text inside the deepest element the parser takes",
 "long text is not split at the deepest level, and its length spills into the depth")

seed("s04-version", "C04",
 [("vtdxml/parser/process_dec_attr_name.go", 'if p.skipCharSeq("1.") && (p.skipChar(\'0\') || p.skipChar(\'1\')) {', 'if p.skipCharSeq("1.") && (p.skipChar(\'0\') || p.skipChar(\'1\') || !p.skipChar(\'2\')) {')],
 "vtdxml/parser", prog([], '''
	for _, doc := range []string{"<?xml version='1.0'?><a/>", "<?xml version='1.", "<?xml version='1", "<?xml version='0"} {
		rs, _ := records(t, doc)
		for _, r := range rs {
			if r.kind != 13 && r.offset+r.length > len(doc) {
				t.Fatal("record past the end of", doc)
			}
		}
	}''', "parser", RECORDS),
 "a document that is cut off inside the version of its XML declaration",
 "the version is recorded with three characters before three have been read")

seed("s08-upper", "C08",
 [("vtdxml/parser/common.go", "\t\t\t\t\t\tvalue = (value << 4) + (ch - 'A' + 10)\n", "\t\t\t\t\t\tvalue = (value << 4) + (ch - 'A' + 10)\n\t\t\t\t\t\tcontinue\n")],
 "vtdxml/parser", prog(PI, '''
	if parse(t, "<a>&#x41;</a>") != nil || parse(t, "<a>&#xAC;</a>") != nil {
		t.Fatal("legal reference rejected")
	}
	for _, r := range []string{"&#x100000041;", "&#xFFFFFFFFF;", "&#xA0000ABCD;", "&#xF0000000F0;", "&#xAAAAAAAAA0000ABC;"} {
		if parse(t, "<a>"+r+"</a>") == nil {
			t.Fatal("accepted", r)
		}
	}''', "parser_test", PARSE),
 "a hexadecimal reference of nine or more digits, upper-case ones at the end",
 "the value is not held to the largest character after an upper-case digit")

seed("s08-url", "C08",
 [("vtdxml/parser/process_attr_val.go", "\t\t\t\t\tif ch >= '0' && ch <= '9' {\n\t\t\t\t\t\tval = val*10 + (ch - '0')\n", "\t\t\t\t\tif ch >= '0' && ch <= '9' {\n\t\t\t\t\t\tval = val*10 + (ch - '0')\n\t\t\t\t\t\tif ch == '0' {\n\t\t\t\t\t\t\tcontinue\n\t\t\t\t\t\t}\n")],
 "vtdxml/parser", prog([], '''
	for _, r := range []string{"&#4294967296065;", "&#100000000000;", "&#99999999999;", "&#2000000000000;", "&#200000000000000000000;"} {
		p, err := NewVtdParser(WithXmlDoc([]byte(r + "            ")))
		if err != nil {
			t.Fatal(err)
		}
		if err := p.init(); err != nil {
			t.Fatal(err)
		}
		if ch, err := p.getCharResolved(0); err == nil {
			t.Fatalf("%s resolves to %d", r, int32(ch))
		}
	}''', "parser", ""),
 "a decimal reference with many zeros in the URL of a namespace",
 "the value is not held to the largest character after a zero")
