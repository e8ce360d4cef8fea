P="vtdxml/parser/"; R="vtdxml/reader/"; PP=["C01","C02","C04","C08"]; EF=["C18","C19","C20","C21","C22","C23"]
ref("p-endtag-helpers", PP+EF, [(P+"process_end_tag.go",'''	for i := 0; i < sLength; i++ {
		if p.xmlDoc[sOffset+i] != p.xmlDoc[p.lastOffset+i] {
			return StateInvalid, erroring.NewParseError("start/end tag mismatch", p.fmtLine(), nil)
		}
	}
''','''	if !p.sameBytes(sOffset, p.lastOffset, sLength) {
		return StateInvalid, erroring.NewParseError("start/end tag mismatch", p.fmtLine(), nil)
	}
'''),(P+"process_end_tag.go",'''	if p.offset >= p.endOffset {
''','''	if p.atEnd() {
'''),(P+"process_end_tag.go",'''func (p *VtdParser) processEndTag()''','''// sameBytes compares two stretches of the document.
func (p *VtdParser) sameBytes(a, b, length int) bool {
	for i := 0; i < length; i++ {
		if p.xmlDoc[a+i] != p.xmlDoc[b+i] {
			return false
		}
	}
	return true
}

func (p *VtdParser) atEnd() bool {
	return p.offset >= p.endOffset
}

func (p *VtdParser) processEndTag()'''),(P+"process_end_tag.go",'''	sOffset := int(int32(p.tagStack[p.depth]))
	sLength := int(int32(p.tagStack[p.depth] >> 32))
''','''	tag := p.tagStack[p.depth]
	sOffset, sLength := int(int32(tag)), int(int32(tag>>32))
''')])
ref("p-endtag-slices", PP, [(P+"process_end_tag.go",'''	for i := 0; i < sLength; i++ {
		if p.xmlDoc[sOffset+i] != p.xmlDoc[p.lastOffset+i] {
			return StateInvalid, erroring.NewParseError("start/end tag mismatch", p.fmtLine(), nil)
		}
	}
	p.depth--
''','''	i := 0
	for i < sLength && p.xmlDoc[sOffset+i] == p.xmlDoc[p.lastOffset+i] {
		i++
	}
	if i < sLength {
		return StateInvalid, erroring.NewParseError("start/end tag mismatch", p.fmtLine(), nil)
	}
	p.depth -= 1
'''),(P+"process_end_tag.go",'''	if p.depth != -1 {
		p.lastOffset''','''	if p.depth >= 0 {
		p.lastOffset''')])
ref("p-start-helpers", PP+EF, [(P+"process_start_tag.go",'''	x := (p.length1 << 32) + p.lastOffset
	p.tagStack[p.depth] = int64(x)

	if p.depth > p.vtdDepth {
		p.vtdDepth = p.depth
	}
''','''	p.pushTag()
'''),(P+"process_start_tag.go",'''		if p.shallowDepth {
			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
				return StateInvalid, err
			}
		} else {
			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
				return StateInvalid, err
			}
		}
''','''		if err := p.writeTag(p.lastOffset, (p.length2<<11)|p.length1); err != nil {
			return StateInvalid, err
		}
'''),(P+"process_start_tag.go",'''		if p.shallowDepth {
			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
				p.depth); err != nil {
				return StateInvalid, err
			}
		} else {
			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
				p.depth); err != nil {
				return StateInvalid, err
			}
		}
''','''		if err := p.writeTag(p.lastOffset>>1, (p.length2<<10)|(p.length1>>1)); err != nil {
			return StateInvalid, err
		}
'''),(P+"process_start_tag.go",'''func (p *VtdParser) processStartTag()''','''// pushTag remembers the name of the start tag.
func (p *VtdParser) pushTag() {
	p.tagStack[p.depth] = int64(p.length1<<32 + p.lastOffset)
	if p.vtdDepth < p.depth {
		p.vtdDepth = p.depth
	}
}

func (p *VtdParser) writeTag(offset, length int) error {
	if p.shallowDepth {
		return p.writeVtd(common.TokenStartingTag, offset, length, p.depth)
	}
	return p.writeVtdL5(common.TokenStartingTag, offset, length, p.depth)
}

func (p *VtdParser) processStartTag()''')])
ref("p-start-order", PP, [(P+"process_start_tag.go",'''	p.length1 = p.offset - p.lastOffset - p.increment
	if p.depth > maxDepth {
		return StateInvalid, erroring.NewParseError(erroring.MaximumDepthExceeded, p.fmtLine(), nil)
	}

	x := (p.length1 << 32) + p.lastOffset
	p.tagStack[p.depth] = int64(x)

	if p.depth > p.vtdDepth {
		p.vtdDepth = p.depth
	}
''','''	if p.depth >= maxDepth+1 {
		return StateInvalid, erroring.NewParseError(erroring.MaximumDepthExceeded, p.fmtLine(), nil)
	}
	if p.vtdDepth < p.depth {
		p.vtdDepth = p.depth
	}
	nameEnd := p.offset - p.increment
	p.length1 = nameEnd - p.lastOffset
	p.tagStack[p.depth] = int64(p.length1)<<32 | int64(p.lastOffset)
'''),(P+"process_start_tag.go",'''	for {
		if err := p.nextChar(); err != nil {
			return StateInvalid, err
		}
		if !p.xmlChar.IsNameChar(p.currentChar) {
			break
		}
		if p.currentChar == ':' {
''','''	if err := p.nextChar(); err != nil {
		return StateInvalid, err
	}
	for ; p.xmlChar.IsNameChar(p.currentChar); {
		if p.currentChar == ':' {
'''),(P+"process_start_tag.go",'''true) {
				return StateInvalid, erroring.NewParseError("XMLNS cannot be element prefix", p.fmtLine(), nil)
			}
		}
''','''true) {
				return StateInvalid, erroring.NewParseError("XMLNS cannot be element prefix", p.fmtLine(), nil)
			}
		}
		if err := p.nextChar(); err != nil {
			return StateInvalid, err
		}
''')])
ref("p-attr-loops", PP+EF, [(P+"process_attr_name.go",'''	for {
		if !p.xmlChar.IsNameChar(p.currentChar) {
			break
		}
		if p.currentChar == ':' {''','''	for p.xmlChar.IsNameChar(p.currentChar) {
		if p.currentChar == ':' {'''),(P+"process_attr_name.go",'''	var unique, uniqual bool
	unique = true
	for i := 0; i < p.attrCount; i++ {
		uniqual = false
		prevLen := int(int32(p.attrNameSlice[i]))
		if p.length1 == prevLen {
			prevOffset := int(int32(p.attrNameSlice[i] >> 32))
			for j := 0; j < prevLen; j++ {
				if p.xmlDoc[prevOffset+j] != p.xmlDoc[p.lastOffset+j] {
					uniqual = true
					break
				}
			}
		} else {
			uniqual = true
		}
		unique = unique && uniqual
	}
	// TODO possibly simplify to if !unique {}
	if !unique && p.attrCount != 0 {
		return erroring.NewParseError(erroring.AttrNotUnique, p.fmtLine(), nil)
	}
''','''	for i := 0; i < p.attrCount; i++ {
		if p.sameName(p.attrNameSlice[i]) {
			return erroring.NewParseError(erroring.AttrNotUnique, p.fmtLine(), nil)
		}
	}
'''),(P+"process_attr_name.go",'''func (p *VtdParser) checkAttrUniqueness()''','''// sameName tells whether an earlier attribute has the name of the current one.
func (p *VtdParser) sameName(name int) bool {
	length := int(int32(name))
	if length != p.length1 {
		return false
	}
	offset := int(int32(name >> 32))
	for j := 0; j < length; j++ {
		if p.xmlDoc[offset+j] != p.xmlDoc[p.lastOffset+j] {
			return false
		}
	}
	return true
}

func (p *VtdParser) checkAttrUniqueness()''')])
ref("p-attr-range", PP, [(P+"process_attr_name.go",'''	for i := 0; i < p.attrCount; i++ {
		uniqual = false
		prevLen := int(int32(p.attrNameSlice[i]))
		if p.length1 == prevLen {
			prevOffset := int(int32(p.attrNameSlice[i] >> 32))
''','''	for _, name := range p.attrNameSlice[:p.attrCount] {
		uniqual = false
		prevLen := int(int32(name))
		if p.length1 == prevLen {
			prevOffset := int(int32(name >> 32))
'''),(P+"process_attr_name.go",'''	if p.singleByteEncoding {
		if p.length2 > maxPrefixLength || p.length1 > maxQnameLength {
			return StateInvalid, erroring.NewParseError(errMsg, p.fmtLine(), nil)
		}
''','''	if p.singleByteEncoding {
		if maxPrefixLength < p.length2 {
			return StateInvalid, erroring.NewParseError(errMsg, p.fmtLine(), nil)
		}
		if p.length1 > maxQnameLength {
			return StateInvalid, erroring.NewParseError(errMsg, p.fmtLine(), nil)
		}
''')])
ref("p-write-helpers", PP+EF, [(P+"common.go",'''	offset64, length64, depth64 := int64(offset), int64(length), int64(depth)
	a := int64(tokenType << 28)
	b := (a | ((depth64 & 0xff) << 20) | length64) << 32
	return p.vtdBuffer.Append(b | offset64)
}
''','''	return p.vtdBuffer.Append(packRecord(tokenType, offset, length, depth))
}

// packRecord composes a VTD record.
func packRecord(tokenType common.Token, offset, length, depth int) int64 {
	upper := int64(tokenType<<28) | int64(depth&0xff)<<20 | int64(length)
	return upper<<32 | int64(offset)
}
'''),(P+"common.go",'''	if length > maxTokenLength {
		j, rOffset := length, offset
		for ; j > maxTokenLength; j -= maxTokenLength {
			if err := p.writeVtd(tokenType, rOffset, maxTokenLength, depth); err != nil {
				return err
			}
			rOffset += maxTokenLength
		}
		return p.writeVtd(tokenType, rOffset, j, depth)
	} else {
		return p.writeVtd(tokenType, offset, length, depth)
	}
''','''	for length > maxTokenLength {
		if err := p.writeVtd(tokenType, offset, maxTokenLength, depth); err != nil {
			return err
		}
		offset += maxTokenLength
		length -= maxTokenLength
	}
	return p.writeVtd(tokenType, offset, length, depth)
'''),(P+"common.go",'''	if p.singleByteEncoding {
		if p.length1 > maxTokenLength {
			return erroring.NewParseError(errMsg, p.fmtLine(), nil)
		}
		if err := p.writeVtd(tokenType, p.lastOffset, p.length1, p.depth); err != nil {
			return err
		}
	} else {
		if p.length1 > maxTokenLength<<1 {
			return erroring.NewParseError(errMsg, p.fmtLine(), nil)
		}
		if err := p.writeVtd(tokenType, p.lastOffset>>1, p.length1>>1, p.depth); err != nil {
			return err
		}
	}
	return nil
''','''	shift := 0
	if !p.singleByteEncoding {
		shift = 1
	}
	if p.length1 > maxTokenLength<<shift {
		return erroring.NewParseError(errMsg, p.fmtLine(), nil)
	}
	return p.writeVtd(tokenType, p.lastOffset>>shift, p.length1>>shift, p.depth)
''')])
ref("p-write-order", PP, [(P+"common.go",'''	offset64, length64, depth64 := int64(offset), int64(length), int64(depth)
	a := int64(tokenType << 28)
	b := (a | ((depth64 & 0xff) << 20) | length64) << 32
	return p.vtdBuffer.Append(b | offset64)
''','''	record := int64(offset)
	record |= int64(length) << 32
	record |= (int64(depth) & 0xff) << 52
	record |= int64(tokenType) << 60
	return p.vtdBuffer.Append(record)
'''),(P+"common.go",'''		j, rOffset := length, offset
		for ; j > maxTokenLength; j -= maxTokenLength {
			if err := p.writeVtd(tokenType, rOffset, maxTokenLength, depth); err != nil {
				return err
			}
			rOffset += maxTokenLength
		}
		return p.writeVtd(tokenType, rOffset, j, depth)
''','''		written := 0
		for length-written > maxTokenLength {
			if err := p.writeVtd(tokenType, offset+written, maxTokenLength, depth); err != nil {
				return err
			}
			written += maxTokenLength
		}
		return p.writeVtd(tokenType, offset+written, length-written, depth)
''')])
ref("p-entity-helper", PP+EF, [(P+"common.go",'''					if ch >= '0' && ch <= '9' {
						value = (value << 4) + (ch - '0')
					} else if ch >= 'a' && ch <= 'f' {
						value = (value << 4) + (ch - 'a' + 10)
					} else if ch >= 'A' && ch <= 'F' {
						value = (value << 4) + (ch - 'A' + 10)
					} else if ch == ';' {
						break
					} else {
						return 0, erroring.NewEntityError("illegal char following &#x")
					}
''','''					if ch == ';' {
						break
					}
					digit, ok := hexDigit(ch)
					if !ok {
						return 0, erroring.NewEntityError("illegal char following &#x")
					}
					value = value*16 + digit
'''),(P+"common.go",'''// entityIdentifier function''','''// hexDigit gives the value of a hexadecimal digit.
func hexDigit(ch uint32) (uint32, bool) {
	switch {
	case ch >= '0' && ch <= '9':
		return ch - '0', true
	case ch >= 'a' && ch <= 'f':
		return ch - 'a' + 10, true
	case ch >= 'A' && ch <= 'F':
		return ch - 'A' + 10, true
	}
	return 0, false
}

// entityIdentifier function''')])
ref("p-entity-loops", PP, [(P+"common.go",'''				for {
					if ch >= '0' && ch <= '9' {
						value = value*10 + (ch - '0')
					} else if ch == ';' {
						break
					} else {
						return 0, erroring.NewEntityError("illegal char following &#x")
					}
					if value''','''				for ch != ';' {
					if ch < '0' || ch > '9' {
						return 0, erroring.NewEntityError("illegal char following &#x")
					}
					value *= 10
					value += ch - '0'
					if value'''),(P+"common.go",'''		for _, seqCh := range seq {
			ch, err := p.getChar()
			if err != nil {
				return err
			}
			if int32(ch) != seqCh {
''','''		for i := 0; i < len(seq); i++ {
			ch, err := p.getChar()
			if err != nil {
				return err
			}
			if ch != uint32(seq[i]) {
''')])
ref("p-entity-split", PP+EF, [(P+"common.go",'''			var value uint32
			ch, err = p.getChar()
			if err != nil {
				return 0, err
			}
			if ch == 'x' {
				for {
''','''			return p.numericEntity()
		}
	case 'a':
		{
			// checks that the sequence matcher &amp;
			ch2, err := p.getChar()
			if err != nil {
				return 0, err
			}
			switch ch2 {
			case 'm':
				return '&', checkSeq("p;")
			case 'p':
				return '\\'', checkSeq("os;")
			}
			return 0, erroring.NewEntityError(erroring.IllegalBuiltInEntity)
		}
	case 'q':
		return '"', checkSeq("uot;")
	case 'g':
		return '>', checkSeq("t;")
	case 'l':
		return '<', checkSeq("t;")
	default:
		return 0, erroring.NewEntityError("illegal entity character")
	}
}

func (p *VtdParser) numericEntity() (uint32, error) {
			var value uint32
			ch, err := p.getChar()
			if err != nil {
				return 0, err
			}
			if ch == 'x' {
				for {
'''),(P+"common.go",'''			return value, nil
		}
	case 'a':
		{
			// checks that the sequence matcher &amp;
			ch2, err := p.getChar()
			if err != nil {
				return 0, err
			}
			if ch2 == 'm' {
				// checks that the sequence matcher &amp;
				if err := checkSeq("p;"); err != nil {
					return 0, err
				}
				return '&', nil
			} else if ch2 == 'p' {
				// checks that the sequence matcher &apos;
				if err := checkSeq("os;"); err != nil {
					return 0, err
				}
				return '\\'', nil
			} else {
				return 0, erroring.NewEntityError(erroring.IllegalBuiltInEntity)
			}
		}
	case 'q':
		{
			// checks that the sequence matcher &quot;
			if err := checkSeq("uot;"); err != nil {
				return 0, err
			}
			return '"', nil
		}
	case 'g', 'l':
		{
			// checks that the sequence matcher &gt; or &lt;
			if err := checkSeq("t;"); err != nil {
				return 0, err
			}
			if ch == 'g' {
				return '>', nil
			} else {
				return '<', nil
			}
		}
	default:
		return 0, erroring.NewEntityError("illegal entity character")
	}
}
''','''			return value, nil
}
''')])
ref("p-ws-loop", PP+EF, [(P+"common.go",'''	for {
		if err := p.nextChar(); err != nil {
			return err
		}
		if !p.xmlChar.IsSpaceChar(p.currentChar) {
			return nil
		}
	}
''','''	err := p.nextChar()
	for err == nil && p.xmlChar.IsSpaceChar(p.currentChar) {
		err = p.nextChar()
	}
	return err
'''),(P+"common.go",'''	if ch, err := p.getChar(); err != nil {
		return err
	} else {
		p.lastChar = p.currentChar
		p.currentChar = ch
	}
	return nil
''','''	ch, err := p.getChar()
	if err != nil {
		return err
	}
	p.lastChar, p.currentChar = p.currentChar, ch
	return nil
'''),(P+"common.go",'''		for so <= offset-1 {
			if p.xmlDoc[so] == '\\n' {
				lineNumber++
				lineOffset = so
			}
			so++
		}
''','''		for i := so; i < offset; i++ {
			if p.xmlDoc[i] != '\\n' {
				continue
			}
			lineNumber++
			lineOffset = i
		}
''')])
ref("p-line-range", PP, [(P+"common.go",'''		for so <= offset-1 {
			if p.xmlDoc[so] == '\\n' {
				lineNumber++
				lineOffset = so
			}
			so++
		}
''','''		if so <= offset {
			for i, c := range p.xmlDoc[so:offset] {
				if c == '\\n' {
					lineNumber++
					lineOffset = so + i
				}
			}
		}
''')])
ref("p-reader", PP+["C09"]+EF, [(R+"utf8_reader.go",'''	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
		r.offset++
		return true
	} else {
		return false
	}
''','''	if r.offset >= r.endOffset || uint32(r.xmlDoc[r.offset]) != ch {
		return false
	}
	r.offset++
	return true
'''),(R+"utf8_reader.go",'''	for _, ch := range seq {
		if !r.SkipChar(uint32(ch)) {
			return false
		}
	}
	return true
''','''	for i := 0; i < len(seq); i++ {
		if !r.SkipChar(uint32(seq[i])) {
			return false
		}
	}
	return true
'''),(R+"utf8_reader.go",'''	if r.offset >= r.endOffset {
		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
	}
	ch := r.xmlDoc[r.offset]
	r.offset++
	if !r.isUTF8(ch) {
''','''	if r.atEnd() {
		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
	}
	ch := r.xmlDoc[r.offset]
	r.offset = r.offset + 1
	if uint32(ch) > unicode.MaxRune {
'''),(R+"utf8_reader.go",'''// isUTF8 function to validate if a character is a valid ASCII character
func (r *Utf8Reader) isUTF8(ch uint8) bool {
	return uint32(ch) <= unicode.MaxRune
}''','''func (r *Utf8Reader) atEnd() bool {
	return r.endOffset <= r.offset
}''')])
ref("p-tail-helper", PP+EF, [(P+"process_element_tail.go",'''			if err := p.handleOtherTextChar(p.currentChar); err != nil {
				return StateInvalid, err
			}
			return StateText, nil
''','''			return p.otherText()
'''),(P+"process_end_tag.go",'''			if err := p.handleOtherTextChar(p.currentChar); err != nil {
				return StateInvalid, err
			}
			return StateText, nil
''','''			return p.otherText()
'''),(P+"process_element_tail.go",'''					p.length1 = p.offset - p.lastOffset - (p.increment << 1)
					if p.singleByteEncoding {
						if err := p.writeVtdText(common.TokenCharacterData, p.lastOffset, p.length1, p.depth); err != nil {
							return StateInvalid, err
						}
					} else {
						if err := p.writeVtdText(common.TokenCharacterData, p.lastOffset>>1, p.length1>>1,
							p.depth); err != nil {
							return StateInvalid, err
						}
					}
''','''					p.length1 = p.offset - p.lastOffset - (p.increment << 1)
					if err := p.writeText(common.TokenCharacterData); err != nil {
						return StateInvalid, err
					}
'''),(P+"process_element_tail.go",'''func (p''','''func (p *VtdParser) otherText() (State, error) {
	if err := p.handleOtherTextChar(p.currentChar); err != nil {
		return StateInvalid, err
	}
	return StateText, nil
}

// writeText records the text that was just read.
func (p *VtdParser) writeText(token common.Token) error {
	offset, length := p.lastOffset, p.length1
	if !p.singleByteEncoding {
		offset, length = offset>>1, length>>1
	}
	return p.writeVtdText(token, offset, length, p.depth)
}

func (p'''),(P+"process_text.go",'''	if p.singleByteEncoding {
		if err := p.writeVtdText(common.TokenCharacterData, p.lastOffset, p.length1, p.depth); err != nil {
			return StateInvalid, err
		}
	} else {
		if err := p.writeVtdText(common.TokenCharacterData, p.lastOffset>>1, p.length1>>1, p.depth); err != nil {
			return StateInvalid, err
		}
	}
''','''	if err := p.writeText(common.TokenCharacterData); err != nil {
		return StateInvalid, err
	}
'''),(P+"process_cdata.go",'''	if p.singleByteEncoding {
		if err := p.writeVtdText(common.TokenCdataVal, p.lastOffset, p.length1, p.depth); err != nil {
			return StateInvalid, err
		}
	} else {
		if err := p.writeVtdText(common.TokenCdataVal, p.lastOffset>>1, p.length1>>1, p.depth); err != nil {
			return StateInvalid, err
		}
	}
''','''	if err := p.writeText(common.TokenCdataVal); err != nil {
		return StateInvalid, err
	}
''')])
ref("p-misc-order", PP, [(P+"process_lt_seen.go",'''	if p.xmlChar.IsNameStartChar(p.currentChar) {
		p.depth++
		return StateTagStart, nil
	} else {
		switch p.currentChar {
		case '/':
			return StateTagEnd, nil
		case '!':
			return p.processExSeen()
		case '?':
			return p.processQmSeen()
		default:
			return StateInvalid, erroring.NewParseError("invalid character after <", p.fmtLine(), nil)
		}
	}
''','''	switch p.currentChar {
	case '/':
		return StateTagEnd, nil
	case '!':
		return p.processExSeen()
	case '?':
		return p.processQmSeen()
	}
	if !p.xmlChar.IsNameStartChar(p.currentChar) {
		return StateInvalid, erroring.NewParseError("invalid character after <", p.fmtLine(), nil)
	}
	p.depth++
	return StateTagStart, nil
'''),(P+"process_text.go",'''	for {
		if err := p.nextChar(); err != nil {
			return StateInvalid, err
		}
		if !p.xmlChar.IsContentChar(p.currentChar) {
			if p.currentChar == '<' {
				break
			}
			if err := p.handleOtherTextChar(p.currentChar); err != nil {
				return StateInvalid, err
			}
		}
	}
''','''	done := false
	for !done {
		if err := p.nextChar(); err != nil {
			return StateInvalid, err
		}
		if p.currentChar == '<' {
			done = true
		} else if !p.xmlChar.IsContentChar(p.currentChar) {
			if err := p.handleOtherTextChar(p.currentChar); err != nil {
				return StateInvalid, err
			}
		}
	}
'''),(P+"process_cdata.go",'''		if p.currentChar == ']' && p.skipChar(']') {
			// skip all ] chars
			for p.skipChar(']') {
			}
			if p.skipChar('>') {
				break
			}
		}
''','''		if p.currentChar != ']' || !p.skipChar(']') {
			continue
		}
		// skip all ] chars
		for more := true; more; {
			more = p.skipChar(']')
		}
		if p.skipChar('>') {
			break
		}
'''),(P+"process_cdata.go","- (p.increment << 1) - p.increment","- 3*p.increment")])
ref("p-dispatch", ["C01","C02","C21"], [(P+"parse.go",'''		if errors.As(err, &eofErr) && parserState == StateDocEnd {
			if err := p.finishUp(); err != nil {
				return erroring.NewInternalError("failed to finish-up document parsing", err)
			}
			return nil
		} else if err != nil {
			return err
		}

		parserState = ps
''','''		if err == nil {
			parserState = ps
			continue
		}
		if parserState != StateDocEnd || !errors.As(err, &eofErr) {
			return err
		}
		if err := p.finishUp(); err != nil {
			return erroring.NewInternalError("failed to finish-up document parsing", err)
		}
		return nil
'''),(P+"process_pi_val.go",'''	for {
		if err := p.nextChar(); err != nil {
			return StateInvalid, err
		}
		if !p.xmlChar.IsValidChar(p.currentChar) {
			return StateInvalid, erroring.NewParseError("invalid char in PI value", p.fmtLine(), nil)
		}
		if p.currentChar == '?' && p.skipChar('>') {
			break
		}
	}
''','''	for closed := false; !closed; closed = p.currentChar == '?' && p.skipChar('>') {
		if err := p.nextChar(); err != nil {
			return StateInvalid, err
		}
		if !p.xmlChar.IsValidChar(p.currentChar) {
			return StateInvalid, erroring.NewParseError("invalid char in PI value", p.fmtLine(), nil)
		}
	}
''')])
ref("p-attrval", PP+EF, [(P+"process_attr_val.go",'''		if p.xmlChar.IsValidChar(p.currentChar) && p.currentChar != '<' {
			if p.currentChar == ch {
				// break because attribute value finished
				break
			}
			if p.currentChar == '&' {
				if ch, err := p.entityIdentifier(); err != nil {
					return StateInvalid, err
				} else if !p.xmlChar.IsValidChar(ch) {
					return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
				}
			}
		} else {
			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
		}
''','''		if p.currentChar == '<' || !p.xmlChar.IsValidChar(p.currentChar) {
			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
		}
		if p.currentChar == ch {
			// break because attribute value finished
			break
		}
		if p.currentChar != '&' {
			continue
		}
		entity, err := p.entityIdentifier()
		if err != nil {
			return StateInvalid, err
		}
		if !p.xmlChar.IsValidChar(entity) {
			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
		}
'''),(P+"process_attr_val.go",'''	for i := 0; i < 18 && offset < g; i++ {
		ch, err := p.getCharResolved(offset)
		if err != nil {
			return InvalidNsUrl, err
		}
		if int64(URL2[i]) != ch {
			return DefaultNsUrl, nil
		}
		offset += int(ch) >> 32
	}
	tmpOffset = offset
''','''	for i, c := range []byte(URL2[:18]) {
		if offset >= g {
			break
		}
		_ = i
		ch, err := p.getCharResolved(offset)
		if err != nil {
			return InvalidNsUrl, err
		}
		if int64(c) != ch {
			return DefaultNsUrl, nil
		}
		offset += int(ch) >> 32
	}
	tmpOffset = offset
''')])
