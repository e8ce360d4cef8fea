N="vtdxml/navigation/"; NAV=["C14","C15","C16"]; EF=["C18","C19","C20","C21","C22","C23"]
SCAN='''		tokenType, err := n.GetTokenType(index)
		if err != nil {
			return false, err
		}
		depth, err := n.GetTokenDepth(index)
		if err != nil {
			return false, err
		}
		if common.Token(tokenType) == common.TokenStartingTag {
'''
ref("r-nav-helper", NAV+EF, [(N+"to_element.go", SCAN, '''		start, depth, err := n.elementAt(index)
		if err != nil {
			return false, err
		}
		if start {
'''),(N+"to_element.go","func (n *VtdNav) toFirstChild()",'''// elementAt tells whether a record is a start tag, and its depth.
func (n *VtdNav) elementAt(index int) (bool, int32, error) {
	tokenType, err := n.GetTokenType(index)
	if err != nil {
		return false, 0, err
	}
	depth, err := n.GetTokenDepth(index)
	if err != nil {
		return false, 0, err
	}
	return common.Token(tokenType) == common.TokenStartingTag, depth, nil
}

func (n *VtdNav) toFirstChild()''')])
ref("r-nav-for", NAV, [(N+"to_element.go", '''	index := int(n.context[n.context[0]] + 1)
	for index < n.vtdBuffer.GetSize() {
''','''	size := n.vtdBuffer.GetSize()
	for index := int(n.context[n.context[0]] + 1); index < size; index++ {
'''),(N+"to_element.go","		index++\n",""),(N+"to_element.go",'''	lastIndex := -1
	for index''','''	for index'''),
 (N+"to_element.go",'''	index := int(n.context[n.context[0]] + 1)
	lastIndex := -1
	for index < n.vtdBuffer.GetSize() {
''','''	lastIndex := -1
	size := n.vtdBuffer.GetSize()
	for index := int(n.context[n.context[0]] + 1); index < size; index++ {
''')][:2][:0]+[(N+"to_element.go",'''	index := int(n.context[n.context[0]] + 1)
	lastIndex := -1
	for index < n.vtdBuffer.GetSize() {
''','''	lastIndex := -1
	size := n.vtdBuffer.GetSize()
	for index := int(n.context[n.context[0]] + 1); index < size; index++ {
'''),(N+"to_element.go", '''	index := int(n.context[n.context[0]] + 1)
	for index < n.vtdBuffer.GetSize() {
''','''	size := n.vtdBuffer.GetSize()
	for index := int(n.context[n.context[0]] + 1); index < size; index++ {
'''),(N+"to_element.go","		index++\n","")])
ref("r-nav-step", NAV+EF, [(N+"to_element.go",'''			l2index := n.l2index
			if dir == NextSibling {
				if l2index+1 > int(n.l2upper) {
					return false, nil
				}
				l2index++
			} else {
				if l2index-1 < int(n.l2lower) {
					return false, nil
				}
				l2index--
			}
''','''			l2index, ok := step(n.l2index, int(n.l2lower), int(n.l2upper), dir)
			if !ok {
				return false, nil
			}
'''),(N+"to_element.go",'''			l3index := n.l3index
			if dir == NextSibling {
				if l3index+1 > int(n.l3upper) {
					return false, nil
				}
				l3index++
			} else {
				if l3index-1 < int(n.l3lower) {
					return false, nil
				}
				l3index--
			}
''','''			l3index, ok := step(n.l3index, int(n.l3lower), int(n.l3upper), dir)
			if !ok {
				return false, nil
			}
'''),(N+"to_element.go","func (n *VtdNav) toNextSibling()",'''func step(index, lo, hi int, dir Direction) (int, bool) {
	if dir == NextSibling {
		index++
		return index, index <= hi
	}
	index--
	return index, index >= lo
}

func (n *VtdNav) toNextSibling()''')])
def childBody(a,b):
    return '''			lower, err := n.%sBuffer.Lower32At(n.%sindex)
			if err != nil {
				return false, err
			}
			if lower == -1 {
				return false, nil
			}
			%slower, %supper := lower, int32(n.%sBuffer.GetSize()-1)
			for i := n.%sindex + 1; i < n.%sBuffer.GetSize(); i++ {
				lower, err = n.%sBuffer.Lower32At(i)
				if err != nil {
					return false, err
				}
				if uint32(lower) != uint32(0xffffffff) {
					%supper = lower - 1
					break
				}
			}
''' % (a,a,b,b,b,a,a,a,b)
ref("r-nav-range", NAV+EF, [(N+"to_element.go",childBody(a,b),'''			%slower, %supper, err := childRange(n.%sBuffer, n.%sindex, n.%sBuffer.GetSize())
			if err != nil || %slower == -1 {
				return false, err
			}
'''%(b,b,a,a,b,b)) for a,b in (("l1","l2"),("l2","l3"))]+[(N+"to_element.go","func (n *VtdNav) toFirstChild()",'''// childRange is the range of the children of a location record, -1 if there are none.
func childRange(b buffer.LongBuffer, index, size int) (int32, int32, error) {
	first, err := b.Lower32At(index)
	if err != nil || first == -1 {
		return -1, -1, err
	}
	for i := index + 1; i < b.GetSize(); i++ {
		next, err := b.Lower32At(i)
		if err != nil {
			return -1, -1, err
		}
		if next != -1 {
			return first, next - 1, nil
		}
	}
	return first, int32(size - 1), nil
}

func (n *VtdNav) toFirstChild()'''),(N+"to_element.go",'import (\n','import (\n\t"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"\n')])
ref("r-nav-string", NAV+EF, [(N+"to_string.go",'''	var buffer bytes.Buffer

	endOffset := offset + length
	for i := offset; i < endOffset; i++ {
		ch, err := n.getCharResolved(int(i))
		if err != nil {
			return "", err
		}
		buffer.WriteByte(byte(ch))
	}

	return buffer.String(), nil
''','''	return collect(offset, length, func(i int) (byte, error) {
		ch, err := n.getCharResolved(i)
		return byte(ch), err
	})
'''),(N+"to_string.go",'''	var buffer bytes.Buffer

	endOffset := offset + length
	for i := offset; i < endOffset; i++ {
		ch, err := n.getChar(int(i))
		if err != nil {
			return "", err
		}
		buffer.WriteByte(byte(ch))
	}

	return buffer.String(), nil
}''','''	return collect(offset, length, func(i int) (byte, error) {
		ch, err := n.getChar(i)
		return byte(ch), err
	})
}

func collect(offset, length int32, get func(i int) (byte, error)) (string, error) {
	var sb strings.Builder
	if length > 0 {
		sb.Grow(int(length))
	}
	for i, end := offset, offset+length; i < end; i++ {
		b, err := get(int(i))
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
	}
	return sb.String(), nil
}'''),(N+"to_string.go",'"bytes"','"strings"')])
ref("r-nav-bytes", NAV+EF, [(N+"to_string.go",'''	var buffer bytes.Buffer

	endOffset := offset + length
	for i := offset; i < endOffset; i++ {
		ch, err := n.getChar(int(i))
		if err != nil {
			return "", err
		}
		buffer.WriteByte(byte(ch))
	}

	return buffer.String(), nil
''','''	var out []byte
	for i := offset; i < offset+length; i++ {
		ch, err := n.getChar(int(i))
		if err != nil {
			return "", err
		}
		out = append(out, byte(ch))
	}
	return string(out), nil
''')])
ref("r-nav-char", NAV+EF, [(N+"get_char_resolved.go",open("/repo/vtdxml/navigation/get_char_resolved.go").read().split("	switch n.encoding {\n")[1].split("	case common.FormatUtf16BE:")[0],'''	case common.FormatAscii, common.FormatIso88591, common.FormatUtf8:
		return n.getCharByte(b, offset)
'''),(N+"get_char_resolved.go","func (n *VtdNav) getChar4OtherEncodings",'''func (n *VtdNav) getCharByte(b byte, offset int) (uint64, error) {
	if b != '\\r' {
		return uint64(int(b) | (1 << 32)), nil
	}
	if offset+1 < n.xmlBuffer.GetSize() {
		next, err := n.xmlBuffer.ByteAt(offset + 1)
		if err != nil {
			return 0, err
		}
		if next == '\\n' {
			return uint64(int(next) | (2 << 32)), nil
		}
	}
	return uint64(int('\\n') | (1 << 32)), nil
}

func (n *VtdNav) getChar4OtherEncodings''')])
ref("r-nav-unit", NAV+EF, [(N+"get_char_resolved.go",'''	if n.encoding == common.FormatUtf16BE {
		b1, err := n.xmlBuffer.ByteAt(offset << 1)
		if err != nil {
			return 0, err
		}
		b2, err := n.xmlBuffer.ByteAt((offset << 1) + 1)
		if err != nil {
			return 0, err
		}
		return uint32(b1)<<8 | uint32(b2), nil
	} else {
		b1, err := n.xmlBuffer.ByteAt(offset << 1)
		if err != nil {
			return 0, err
		}
		b2, err := n.xmlBuffer.ByteAt((offset << 1) + 1)
		if err != nil {
			return 0, err
		}
		return uint32(b2)<<8 | uint32(b1), nil
	}
''','''	hi, err := n.xmlBuffer.ByteAt(2 * offset)
	if err != nil {
		return 0, err
	}
	lo, err := n.xmlBuffer.ByteAt(2*offset + 1)
	if err != nil {
		return 0, err
	}
	if n.encoding != common.FormatUtf16BE {
		hi, lo = lo, hi
	}
	return uint32(hi)*256 + uint32(lo), nil
''')])
ref("r-nav-length", NAV+EF, [(N+"common.go",'''			for i := index; i < n.vtdBuffer.GetSize(); i++ {
				val, forErr := n.vtdBuffer.LongAt(i)
				if forErr != nil {
					return 0, forErr
				}
				chunkType, forErr := n.GetTokenType(i)
				if forErr != nil {
					return 0, forErr
				}
				chunkDepth, forErr := n.GetTokenDepth(i)
				if forErr != nil {
					return 0, forErr
				}
''','''			i := index - 1
			for {
				i++
				if i >= n.vtdBuffer.GetSize() {
					break
				}
				val, chunkType, chunkDepth, forErr := n.record(i)
				if forErr != nil {
					return 0, forErr
				}
'''),(N+"common.go","func (n *VtdNav) GetVtdBufferSize()",'''func (n *VtdNav) record(i int) (val int64, typ, depth int32, err error) {
	if val, err = n.vtdBuffer.LongAt(i); err != nil {
		return
	}
	if typ, err = n.GetTokenType(i); err != nil {
		return
	}
	depth, err = n.GetTokenDepth(i)
	return
}

func (n *VtdNav) GetVtdBufferSize()''')])
ref("r-nav-parent", NAV+EF, [(N+"to_element.go",'''	if n.context[0] > 0 {
		n.context[n.context[0]] = -1
		n.context[0]--
		return true, nil
	} else if n.context[0] == 0 {
		n.context[0] = -1
		return true, nil
	} else {
		return false, nil
	}
''','''	d := n.context[0]
	switch {
	case d < 0:
		return false, nil
	case d > 0:
		n.context[d] = -1
	}
	n.context[0] = d - 1
	return true, nil
''')])
ref("r-reader-window", ["C09"]+EF, [("vtdxml/reader/utf8_reader.go",'''	if offset < 0 || int(offset) >= r.endOffset {''','''	if !r.inside(int(offset)) {'''),("vtdxml/reader/utf8_reader.go","// isUTF8",'''func (r *Utf8Reader) inside(offset int) bool {
	return offset >= 0 && offset < r.endOffset
}

// isUTF8'''),("vtdxml/reader/utf8_reader.go",'''	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
		r.offset++
		return true
	} else {
		return false
	}''','''	ok := r.offset < r.endOffset && uint32(r.xmlDoc[r.offset]) == ch
	if ok {
		r.offset += 1
	}
	return ok''')])
ref("r-reader-rest", ["C09"]+EF, [("vtdxml/reader/ascii_reader.go",'''	if r.offset >= r.endOffset {
		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
	}
	ch := r.xmlDoc[r.offset]
	r.offset++
''','''	rest := r.rest()
	if len(rest) == 0 {
		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
	}
	ch := rest[0]
	r.offset++
'''),("vtdxml/reader/ascii_reader.go","// isASCII",'''// rest is what is left of the window
func (r *AsciiReader) rest() []byte {
	if r.offset >= r.endOffset {
		return nil
	}
	return r.xmlDoc[r.offset:r.endOffset]
}

// isASCII'''),("vtdxml/reader/ascii_reader.go",'''	for _, ch := range seq {
		if !r.SkipChar(uint32(ch)) {
			return false
		}
	}
	return true''','''	runes := []rune(seq)
	for i := 0; i < len(runes); i++ {
		if ok := r.SkipChar(uint32(runes[i])); !ok {
			return false
		}
	}
	return true''')])
ref("r-reader-seq", ["C09"], [("vtdxml/reader/ascii_reader.go",'''	for _, ch := range seq {
		if !r.SkipChar(uint32(ch)) {
			return false
		}
	}
	return true''','''	matched := true
	for _, ch := range seq {
		matched = r.SkipChar(uint32(ch))
		if !matched {
			break
		}
	}
	return matched''')])
L="vtdxml/buffer/long_buffer.go"
ref("r-buf-locate", ["C10"]+EF, [(L,'''	pageNum := index >> b.exp
	offset := index & b.r

	bufferSlice, err := b.get(pageNum)
	if err != nil {
		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
	}
	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
	}
	v := bufferSlice[offset]
	return v, nil
''','''	cell := b.cell(index)
	if cell == nil {
		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
	}
	return *cell, nil
'''),(L,"func (b *FastLongBuffer) Clear()",'''// cell is where an entry is kept, nil if there is no such entry
func (b *FastLongBuffer) cell(index int) *int64 {
	if index < 0 || index >= b.size {
		return nil
	}
	page, err := b.get(index >> b.exp)
	if err != nil {
		return nil
	}
	if offset := index & b.r; offset < len(page) {
		return &page[offset]
	}
	return nil
}

func (b *FastLongBuffer) Clear()''')])
ref("r-buf-append", ["C10"]+EF, [(L,'''		for j := range buffer {
			v := buffer[j]
			intArray = append(intArray, v)
		}
''','''		intArray = append(intArray, buffer...)
'''),(L,'''	pageNum := b.size >> b.exp
	if pageNum >= len(b.buffer) {
		b.size++
		b.capacity += b.pageSize
		b.buffer = append(b.buffer, []int64{value})
		return nil
	}
''','''	pageNum := b.size >> b.exp
	if pageNum >= len(b.buffer) {
		page := make([]int64, 0, 1)
		b.buffer = append(b.buffer, append(page, value))
		b.capacity += b.pageSize
		b.size++
		return nil
	}
''')])
ref("r-buf-byte", ["C10"]+EF, [("vtdxml/buffer/byte_buffer.go",'''	if index >= len(b.buffer) || index < 0 {
		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
	}
	return b.buffer[index], nil''','''	if size := b.GetSize(); 0 <= index && index < size {
		return b.buffer[index], nil
	}
	return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)''')])
