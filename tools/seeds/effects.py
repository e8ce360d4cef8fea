M = "github.com/alexZaicev/go-vtd-xml/vtdxml/"
def prog(imports, body, pkg):
    return "package %s\n\nimport (\n%s\n)\n\nfunc TestZzDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t"%s"' % i for i in ["testing"] + imports), body)

seed("s18-shared-pages", "C18",
 [("vtdxml/buffer/int_buffer.go", "type FastIntBuffer struct", "// emptyIntPages is the page table every buffer starts from\nvar emptyIntPages = make([][]int32, 0, DefaultIntPageSize)\n\ntype FastIntBuffer struct"),
  ("vtdxml/buffer/int_buffer.go", "make([][]int32, 0, DefaultLongPageSize),", "emptyIntPages,")],
 "vtdxml/buffer", prog([M+"buffer"], '''
	a, _ := buffer.NewFastIntBuffer()
	b, _ := buffer.NewFastIntBuffer()
	_ = a.Append(1)
	_ = b.Append(2)
	if v, err := a.IntAt(0); err != nil || v != 1 {
		t.Fatal("buffers share storage", v, err)
	}''', "buffer_test"),
 "two int buffers alive at once: the second one's first page replaces the first one's (a parser has only one, tests use one at a time)",
 "a page table allocated once at package level is handed to every int buffer")

seed("s18-charset-cache", "C18",
 [("vtdxml/common/xml_char.go", "func NewXmlChar() *XmlChar {\n\tx := &XmlChar{", "// xmlCharTable keeps the character tables, they are the same for all\nvar xmlCharTable *XmlChar\n\nfunc NewXmlChar() *XmlChar {\n\tif xmlCharTable != nil {\n\t\treturn xmlCharTable\n\t}\n\tx := &XmlChar{"),
  ("vtdxml/common/xml_char.go", "\t\tx.specialCharSlice = append(x.specialCharSlice, i)\n\t}\n\n\treturn x", "\t\tx.specialCharSlice = append(x.specialCharSlice, i)\n\t}\n\n\txmlCharTable = x\n\treturn x")],
 "vtdxml/reader", prog([M+"common", "sync", "time"], '''
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			_ = common.NewXmlChar()
		}()
	}
	time.Sleep(50 * time.Millisecond)
	close(start)
	wg.Wait()''', "reader_test"),
 "two goroutines creating their first parser at the same time (data race, seen with the race detector)",
 "the character tables are cached in a package-level variable without synchronisation", race=True)

seed("s18-tag-stack", "C18",
 [("vtdxml/parser/vtd_parser.go", "type Option func(*VtdParser)", "// tagStackPool is the scratch stack of the start tags of a document\nvar tagStackPool = make([]int64, DefaultTagArraySize)\n\ntype Option func(*VtdParser)"),
  ("vtdxml/parser/vtd_parser.go", "tagStack:              make([]int64, DefaultTagArraySize, DefaultTagArraySize),", "tagStack:              tagStackPool,")],
 "vtdxml/parser", prog([M+"parser", "sync", "strings"], '''
	docs := []string{"<a>" + strings.Repeat("<b></b>", 300) + "</a>", "<root>" + strings.Repeat("  <item><x>1</x></item>", 300) + "</root>"}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 5; k++ {
				p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte(docs[i%2])))
				if err != nil {
					panic(err)
				}
				if err := p.Parse(); err != nil {
					t.Error(err)
				}
			}
		}(i)
	}
	wg.Wait()''', "parser_test"),
 "two parsers running concurrently on documents with different tags",
 "all parsers use one package-level tag stack", race=True)

seed("s19-env", "C19",
 [("vtdxml/parser/init.go", "import (\n", "import (\n\t\"os\"\n\n"),
  ("vtdxml/parser/init.go", "func (p *VtdParser) init() error {", "func (p *VtdParser) init() error {\n\tif os.Getenv(\"VTDXML_SHALLOW\") == \"0\" {\n\t\tp.shallowDepth = false\n\t}")],
 "vtdxml/parser", prog([M+"parser", "os", "reflect"], '''
	os.Unsetenv("VTDXML_SHALLOW")
	a, _ := parser.NewVtdParser(parser.WithXmlDoc([]byte("<a/>")))
	os.Setenv("VTDXML_SHALLOW", "0")
	b, _ := parser.NewVtdParser(parser.WithXmlDoc([]byte("<a/>")))
	x, y := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for i := 0; i < x.NumField(); i++ {
		if x.Field(i).Kind() == reflect.Bool && x.Field(i).Bool() != y.Field(i).Bool() {
			t.Fatal("the environment changes the parser")
		}
	}''', "parser_test"),
 "an environment variable that is set to a particular value", "the parser's configuration depends on the process environment")

seed("s19-log", "C19",
 [("vtdxml/parser/common.go", "import (\n\t\"fmt\"\n", "import (\n\t\"fmt\"\n\t\"log\"\n"),
  ("vtdxml/parser/common.go", "\tif length > maxTokenLength {\n\t\tj, rOffset", "\tif length > maxTokenLength {\n\t\tlog.Printf(\"token at %d is split, its length is %d\", offset, length)\n\t\tj, rOffset")],
 "vtdxml/parser", prog([M+"parser", "log", "strings", "bytes"], '''
	var out bytes.Buffer
	log.SetOutput(&out)
	p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte("<a>" + strings.Repeat(" ", 1<<20) + "</a>")))
	if err != nil {
		t.Fatal(err)
	}
	_ = p.Parse()
	if out.Len() != 0 {
		t.Fatal("parsing logged", out.String())
	}''', "parser_test"),
 "a text of more than 2^20-1 bytes", "writes to the process's log (standard error) while parsing")

seed("s20-cr", "C20",
 [("vtdxml/reader/utf8_reader.go", "return (1 << 32) | uint64(ch), nil", "if ch == byte('\\r') {\n\t\t// a single carriage return is a line feed\n\t\tr.xmlDoc[offset] = byte('\\n')\n\t}\n\treturn (1 << 32) | uint64(ch), nil")],
 "vtdxml/parser", prog([M+"parser", "bytes"], '''
	doc := []byte("<a xmlns:p='u\\ru' xmlns:q='u\\rv' p:x='' q:x=''/>")
	keep := append([]byte{}, doc...)
	p, err := parser.NewVtdParser(parser.WithXmlDoc(doc), parser.WithNameSpaceAware(true))
	if err != nil {
		t.Fatal(err)
	}
	_ = p.Parse()
	if !bytes.Equal(keep, doc) {
		t.Fatal("the document was changed", string(doc))
	}''', "parser_test"),
 "a lone carriage return in a namespace URL of a namespace-aware parse", "the reader normalises a carriage return in the caller's document")

seed("s20-fold", "C20",
 [("vtdxml/parser/common.go", "skipped = p.skipChar(chars[0]) || p.skipChar(chars[1])\n\t\tif !skipped {\n\t\t\treturn false\n\t\t}", "skipped = p.skipChar(chars[0]) || p.skipChar(chars[1])\n\t\tif !skipped {\n\t\t\treturn false\n\t\t}\n\t\t// the comparisons that follow are on lower case\n\t\tp.xmlDoc[p.offset-1] = byte(chars[0])")],
 "vtdxml/parser", prog([M+"parser", "bytes"], '''
	doc := []byte("<?xml version='1.0' encoding='UTF-8'?><a/>")
	keep := append([]byte{}, doc...)
	p, err := parser.NewVtdParser(parser.WithXmlDoc(doc))
	if err != nil {
		t.Fatal(err)
	}
	_ = p.Parse()
	if !bytes.Equal(keep, doc) {
		t.Fatal("the document was changed", string(doc))
	}''', "parser_test"),
 "an encoding name in upper case", "folds the encoding name to lower case in the caller's document")

STUB = '''package navigation_test

import (
	"errors"
	"testing"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
)

type zzFlaky struct {
	*buffer.FastLongBuffer
	fail bool
}

func (f *zzFlaky) Upper32At(i int) (int32, error) {
	if f.fail {
		return 0, errors.New("broken")
	}
	return f.FastLongBuffer.Upper32At(i)
}

func zzBuffer(v ...int64) *zzFlaky {
	b, _ := buffer.NewFastLongBuffer()
	for _, x := range v {
		_ = b.Append(x)
	}
	return &zzFlaky{FastLongBuffer: b}
}

func zzNav(l1, l2 buffer.LongBuffer, l3 buffer.LongBuffer) *navigation.VtdNav {
	n, err := navigation.NewVtdNav(0, 0, 100, 5, common.FormatUtf8, true, make([]byte, 100), zzBuffer(0, 0, 0, 0, 0, 0, 0, 0), l1, l2, l3)
	if err != nil {
		panic(err)
	}
	return n
}
'''
seed("s21-nav-sibling", "C21",
 [("vtdxml/navigation/to_element.go", "\t\t\tval, err := n.l1Buffer.Upper32At(l1index)\n\t\t\tif err != nil {\n\t\t\t\treturn false, err\n\t\t\t}\n\t\t\tn.l1index = l1index\n\t\t\tn.context[0] = 1\n", "\t\t\tval, err := n.l1Buffer.Upper32At(l1index)\n\t\t\tif err != nil {\n\t\t\t\treturn false, nil\n\t\t\t}\n\t\t\tn.l1index = l1index\n\t\t\tn.context[0] = 1\n")],
 "vtdxml/navigation", STUB + '''
func TestZzDemo(t *testing.T) {
	l1 := zzBuffer(1<<32 | 0xffffffff)
	n := zzNav(l1, zzBuffer(), zzBuffer())
	if ok, err := n.ToElement(navigation.FirstChild); !ok || err != nil {
		t.Fatal(ok, err)
	}
	l1.fail = true
	if _, err := n.ToElement(navigation.FirstChild); err == nil {
		t.Fatal("the failure of the location cache was swallowed")
	}
}
''', "a location cache whose read fails", "a failed read of the location cache is reported as 'no such child'")

seed("s21-tail", "C21",
 [("vtdxml/parser/process_element_tail.go", "\t\t\tif err := p.handleOtherTextChar(p.currentChar); err != nil {\n\t\t\t\treturn StateInvalid, err\n\t\t\t}\n\t\t\treturn StateText, nil", "\t\t\tif err := p.handleOtherTextChar(p.currentChar); err != nil && p.currentChar != '&' {\n\t\t\t\treturn StateInvalid, err\n\t\t\t}\n\t\t\treturn StateText, nil")],
 "vtdxml/parser", prog([M+"parser"], '''
	p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte("<a>&#x0;x</a>")))
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Parse(); err == nil {
		t.Fatal("an illegal reference was accepted")
	}''', "parser_test"),
 "an element whose text starts with an illegal reference", "the error of the reference is dropped when it is the first thing in an element")

seed("s22-empty", "C22",
 [("vtdxml/buffer/byte_buffer.go", "\tif buffer == nil {\n", "\tif len(buffer) == 0 && buffer != nil {\n\t\treturn nil, nil\n\t}\n\tif buffer == nil {\n"),
  ("vtdxml/buffer/byte_buffer.go", "\treturn &UniByteBuffer{\n\t\tbuffer: buffer,\n\t}, nil", "\treturn &UniByteBuffer{buffer: buffer}, nil")],
 "vtdxml/buffer", prog([M+"buffer"], '''
	b, err := buffer.NewUniByteBuffer([]byte{})
	if err == nil && b == nil {
		t.Fatal("neither a buffer nor an error")
	}''', "buffer_test"),
 "an empty, non-nil byte slice", "neither a buffer nor an error is returned")

seed("s22-nav", "C22",
 [("vtdxml/navigation/vtd_nav.go", "\txmlBuffer, err := buffer.NewUniByteBuffer(bytes)\n\tif err != nil {\n\t\treturn nil, err\n\t}", "\txmlBuffer, err := buffer.NewUniByteBuffer(bytes)\n\tif err != nil {\n\t\treturn n, err\n\t}")],
 "vtdxml/navigation", STUB + '''
func TestZzDemo(t *testing.T) {
	n, err := navigation.NewVtdNav(0, 0, 6, 5, common.FormatUtf8, true, nil, zzBuffer(), zzBuffer(), zzBuffer(), zzBuffer())
	if err == nil || n != nil {
		t.Fatal(n, err)
	}
}
''', "a navigator for a nil document", "a navigator without a document is returned along with the error")

seed("s23-cause", "C23",
 [("vtdxml/erroring/erroring.go", "\t\t\tfmt.Sprintf(\"an internal error occurred: %s\", msg),\n\t\t\terr,", "\t\t\tfmt.Sprintf(\"an internal error occurred: %s\", msg),\n\t\t\terrors.Unwrap(err),"),
  ("vtdxml/erroring/erroring.go", "import (\n", "import (\n\t\"errors\"\n")],
 "vtdxml/parser", prog([M+"parser", M+"erroring", "errors"], '''
	p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte("<a><")))
	if err != nil {
		t.Fatal(err)
	}
	var eof *erroring.EOFError
	if err := p.Parse(); !errors.As(err, &eof) {
		t.Fatal("the cause is lost", err)
	}''', "parser_test"),
 "a document that ends right after a <", "internal errors do not unwrap to their cause")

seed("s23-foreign", "C23",
 [("vtdxml/reader/ascii_reader.go", "import (\n\t\"unicode\"\n", "import (\n\t\"io\"\n\t\"unicode\"\n"),
  ("vtdxml/reader/ascii_reader.go", "func (r *AsciiReader) GetChar() (uint32, error) {\n\tif r.offset >= r.endOffset {\n\t\treturn 0, erroring.NewEOFError(erroring.XmlIncomplete)", "func (r *AsciiReader) GetChar() (uint32, error) {\n\tif r.offset >= r.endOffset {\n\t\treturn 0, io.EOF")],
 "vtdxml/reader", prog([M+"reader", M+"erroring", "errors"], '''
	r, err := reader.NewAsciiReader([]byte("a"), 0, 1)
	if err != nil {
		t.Fatal(err)
	}
	_, _ = r.GetChar()
	_, err = r.GetChar()
	var eof *erroring.EOFError
	if !errors.As(err, &eof) {
		t.Fatal("not an error of the library", err)
	}''', "reader_test"),
 "reading past the end with the ASCII reader", "an error from outside the library's categories")
