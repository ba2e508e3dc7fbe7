From 9958f7f742e685d5d22ba2574186a135632c6480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 01/64] fix: decode item lengths above 255 bytes

The second and third length byte were shifted as 8-bit values and so always
became zero: every item longer than 255 bytes was decoded with a wrong length.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index a6f2671..65a70bf 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -143,7 +143,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	var length int
 	for i, b := range lengthBytes {
 		shift := (lengthBytesCount - i - 1) * 8
-		length += int(b << shift)
+		length += int(b) << shift
 	}
 	p.pos += lengthBytesCount
 
-- 
2.43.0


From 0a2984cbe2a543e4fda5059364fddf73ad274087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 02/64] fix: do not allocate for item lengths the input cannot
 contain

A few header bytes could make the decoder allocate hundreds of megabytes, and
ASCII items were built with quadratic cost.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 65a70bf..9118b72 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -147,22 +147,31 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	}
 	p.pos += lengthBytesCount
 
+	// Check the declared length against the remaining input before allocating
+	// anything for it; each list element takes at least two bytes.
+	minLength := length
+	if formatCode == formatCodeList {
+		minLength = length * 2
+	}
+	if minLength > len(p.input)-p.pos {
+		return ast.NewEmptyItemNode(), false
+	}
+
 	switch formatCode {
 	case formatCodeList:
-		values := make([]interface{}, length)
+		// Not preallocated: nested lists may all claim the same remaining bytes.
+		var values []interface{}
 		for i := 0; i < length; i++ {
-			values[i], ok = p.parseMessageText()
+			item, ok := p.parseMessageText()
 			if !ok {
 				return ast.NewEmptyItemNode(), false
 			}
+			values = append(values, item)
 		}
 		return ast.NewListNode(values...), true
 
 	case formatCodeASCII:
-		var str string
-		for _, v := range p.input[p.pos : p.pos+length] {
-			str += string(v)
-		}
+		str := string(p.input[p.pos : p.pos+length])
 		p.pos += length
 		return ast.NewASCIINode(str), true
 
-- 
2.43.0


From c4cd981a6e15042e4ef26c8b040f9c51d1c894a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 03/64] fix: reject HSMS messages with bytes after the message
 text

A data message with left-over bytes behind its item, and a control message
longer than its header, were accepted and the extra bytes silently dropped.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 9118b72..77bf017 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -107,7 +107,8 @@ func (p *parser) parseMessage() (ok bool) {
 		sessionID := int(binary.BigEndian.Uint16(headerBytes[:2]))
 		systemBytes := headerBytes[6:10]
 		dataItem, ok := p.parseMessageText()
-		if !ok {
+		if !ok || p.pos != len(p.input) {
+			// Malformed, or bytes left over after the message text
 			return false
 		}
 		p.msg = ast.NewHSMSDataMessage("", stream, function, waitBit, "H<->E", dataItem, sessionID, systemBytes)
@@ -115,6 +116,10 @@ func (p *parser) parseMessage() (ok bool) {
 
 	case sTypeSelectReq, sTypeSelectRsp, sTypeDeselectReq, sTypeDeselectRsp,
 		sTypeLinktestReq, sTypeLinktestRsp, sTypeRejectReq, sTypeSeparateReq:
+		if p.msgLength != 10 {
+			// Control messages consist of the header only
+			return false
+		}
 		p.msg = ast.NewHSMSControlMessage(headerBytes)
 		return true
 
-- 
2.43.0


From 6c34df387b859b33012b280e980f9276f3156211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 04/64] fix: encode an absent item inside a list as a
 zero-length list

Such a list was taken to contain an unnamed variable: the whole message
encoded to nothing and was never sent, and two absent items in one list
panicked. Replies for unknown SVIDs/ECIDs and missing values are built so.
---
 lib-secs2-hsms-go/pkg/ast/list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/ast/list.go b/lib-secs2-hsms-go/pkg/ast/list.go
index 0dd50ba..40357a6 100644
--- a/lib-secs2-hsms-go/pkg/ast/list.go
+++ b/lib-secs2-hsms-go/pkg/ast/list.go
@@ -61,6 +61,7 @@ func (node *ListNode) Type() string {
 //
 // Each input of the values should be a ItemNode,
 // or a string with valid variable name as specified in the interface documentation.
+// An empty item node is taken as a zero-length list.
 func NewListNode(values ...interface{}) ItemNode {
 	if getDataByteLength("list", len(values)) > MAX_BYTE_SIZE {
 		panic("item node size limit exceeded")
@@ -74,6 +75,11 @@ func NewListNode(values ...interface{}) ItemNode {
 
 	for i, value := range values {
 		if v, ok := value.(ItemNode); ok {
+			if _, ok := v.(emptyItemNode); ok {
+				// An absent item inside a list is a zero-length list in SECS-II;
+				// emptyItemNode only marks the position of an item node variable
+				v = &ListNode{values: []ItemNode{}, variables: map[string]int{}, symbol: "list"}
+			}
 			nodeValues = append(nodeValues, v)
 		} else if v, ok := value.(string); ok {
 			nodeValues = append(nodeValues, emptyNode)
-- 
2.43.0


From 1159b77ca4fb5293f140639cc29f5cde5bfcff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 05/64] fix: bound the cost of deeply nested lists

A frame of nested lists received from the network overflowed the stack, which
ends the process, and took time quadratic in its depth. Nesting is now limited
to 1000 levels on decoding, and a list node collects its variable names once.
---
 lib-secs2-hsms-go/pkg/ast/list.go           | 45 +++++++++++++--------
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 10 +++++
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/list.go b/lib-secs2-hsms-go/pkg/ast/list.go
index 40357a6..b7bd1e5 100644
--- a/lib-secs2-hsms-go/pkg/ast/list.go
+++ b/lib-secs2-hsms-go/pkg/ast/list.go
@@ -38,6 +38,9 @@ type ListNode struct {
 	variables map[string]int // Variable name and its position in the data array
 
 	symbol string
+
+	variableNames []string // Names of all variables including child item nodes', in appearing order
+
 	// Rep invariants
 	// - If a variable exists in position i, values[i] will be zero-value (emptyItemNode) and should not be used
 	// - The first item of the list node should not be an ellipsis
@@ -78,7 +81,7 @@ func NewListNode(values ...interface{}) ItemNode {
 			if _, ok := v.(emptyItemNode); ok {
 				// An absent item inside a list is a zero-length list in SECS-II;
 				// emptyItemNode only marks the position of an item node variable
-				v = &ListNode{values: []ItemNode{}, variables: map[string]int{}, symbol: "list"}
+				v = NewListNode()
 			}
 			nodeValues = append(nodeValues, v)
 		} else if v, ok := value.(string); ok {
@@ -92,7 +95,8 @@ func NewListNode(values ...interface{}) ItemNode {
 		}
 	}
 
-	node := &ListNode{nodeValues, nodeVariables, "list"}
+	node := &ListNode{values: nodeValues, variables: nodeVariables, symbol: "list"}
+	node.variableNames = node.collectVariables()
 	node.checkRep()
 	return node
 }
@@ -106,20 +110,7 @@ func (node *ListNode) Size() int {
 
 // Variables implements ItemNode.Variables().
 func (node *ListNode) Variables() []string {
-	result := []string{}
-
-	var posVar map[int]string = node.variablesSwapKeyValue()
-	for i, item := range node.values {
-		if _, ok := item.(emptyItemNode); ok {
-			// Contains item node variable
-			result = append(result, posVar[i])
-		} else {
-			// Call Variables() of child node recursively
-			result = append(result, item.Variables()...)
-		}
-	}
-
-	return result
+	return append([]string{}, node.variableNames...)
 }
 
 // FillVariables implements ItemNode.FillVariables().
@@ -201,6 +192,26 @@ func (node *ListNode) String() string {
 
 // Private methods
 
+// collectVariables returns the names of the variables in this list node and its
+// child item nodes. It is called once on creation: the child nodes keep their own
+// names, so that creating deeply nested lists takes linear time.
+func (node *ListNode) collectVariables() []string {
+	result := []string{}
+
+	var posVar map[int]string = node.variablesSwapKeyValue()
+	for i, item := range node.values {
+		if _, ok := item.(emptyItemNode); ok {
+			// Contains item node variable
+			result = append(result, posVar[i])
+		} else {
+			// Call Variables() of child node recursively
+			result = append(result, item.Variables()...)
+		}
+	}
+
+	return result
+}
+
 func (node *ListNode) checkRep() {
 	ellipsisExist := false
 	visitedIndex := map[int]bool{}
@@ -236,7 +247,7 @@ func (node *ListNode) checkRep() {
 	}
 
 	// Check duplicated variables including child item nodes
-	variables := node.Variables()
+	variables := node.variableNames
 	foundVarName := map[string]bool{}
 	for _, v := range variables {
 		if _, ok := foundVarName[v]; ok {
diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 77bf017..f06934c 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -42,6 +42,10 @@ const (
 	formatCodeU1      = 0o51
 	formatCodeU2      = 0o52
 	formatCodeU4      = 0o54
+
+	// maxNestingDepth is the maximum number of lists nested in each other.
+	// It bounds the recursion on input received from the network.
+	maxNestingDepth = 1000
 )
 
 // Parse parses the input bytes that represent a HSMS message.
@@ -70,6 +74,7 @@ func Parse(input []byte) (msg ast.HSMSMessage, ok bool) {
 type parser struct {
 	input     []byte          // a HSMS input message in bytes
 	pos       int             // current position in input
+	depth     int             // number of lists around the current position
 	msgLength int             // message length (excluding length bytes)
 	msg       ast.HSMSMessage // parsed HSMS message
 }
@@ -164,6 +169,10 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 
 	switch formatCode {
 	case formatCodeList:
+		if p.depth == maxNestingDepth {
+			return ast.NewEmptyItemNode(), false
+		}
+		p.depth++
 		// Not preallocated: nested lists may all claim the same remaining bytes.
 		var values []interface{}
 		for i := 0; i < length; i++ {
@@ -173,6 +182,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 			}
 			values = append(values, item)
 		}
+		p.depth--
 		return ast.NewListNode(values...), true
 
 	case formatCodeASCII:
-- 
2.43.0


From af8d4370cf1a361439c549fc632a138a9427bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 06/64] fix: NewHSMSControlMessage ignores bytes after the
 header

An 11-byte argument panicked.
---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index b1a6d17..741b333 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -54,7 +54,7 @@ type ControlMessage struct {
 func NewHSMSControlMessage(header []byte) HSMSMessage {
 	headerCopy := make([]byte, 10)
 	for i, b := range header {
-		if i > 10 {
+		if i >= 10 {
 			break
 		}
 		headerCopy[i] = b
-- 
2.43.0


From 2c8bbde60172e49a67a0559875cfdfe017fab13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 07/64] fix: build reject.req for the message that is rejected

The constructor required its argument to have a type that no message has, so
every attempt to reject a message panicked, and it copied the wrong four bytes
as system bytes.
---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index 741b333..85ed83d 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -205,28 +205,17 @@ func NewHSMSMessageRejectReq(sessionID uint16, pType, sType byte, systemBytes []
 	return &ControlMessage{header}
 }
 
-func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMSMessage {
-	if rejectReq.Type() != "Reject.req" {
-		panic("expected Reject.req message")
+// NewHSMSMessageRejectReqFromMsg creates HSMS Reject.req control message that rejects
+// the received HSMS message.
+func NewHSMSMessageRejectReqFromMsg(rejected HSMSMessage, reasonCode byte) HSMSMessage {
+	raw := rejected.ToBytes()
+	if len(raw) < 14 { // length bytes + header bytes
+		panic("rejected message can't be represented as HSMS format")
 	}
 
-	header := make([]byte, 10)
-	msg, _ := rejectReq.(*ControlMessage)
-	header[0] = msg.header[0]
-	header[1] = msg.header[1]
-	if reasonCode == 2 {
-		header[2] = msg.header[4] // pType
-	} else {
-		header[2] = msg.header[5] // sType
-	}
-	header[3] = reasonCode
-	header[5] = sTypeRejectReq
-	header[6] = msg.header[0]
-	header[7] = msg.header[1]
-	header[8] = msg.header[2]
-	header[9] = msg.header[3]
-
-	return &ControlMessage{header}
+	header := raw[4:14]
+	sessionID := uint16(header[0])<<8 | uint16(header[1])
+	return NewHSMSMessageRejectReq(sessionID, header[4], header[5], header[6:10], reasonCode)
 }
 
 // NewHSMSMessageSeparateReq creates HSMS Separate.req control message.
-- 
2.43.0


From 19679b398add1b5996b21020e05803a9c8b67b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 08/64] fix: panic on item values outside the item's range
 instead of wrapping

Negative values became huge U8 values, large uint values became negative I8
values, and a malformed binary literal became zero.
---
 lib-secs2-hsms-go/pkg/ast/binary.go |  5 ++++-
 lib-secs2-hsms-go/pkg/ast/int.go    |  3 +++
 lib-secs2-hsms-go/pkg/ast/uint.go   | 15 +++++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/binary.go b/lib-secs2-hsms-go/pkg/ast/binary.go
index 4ce63b9..1bdaf5f 100644
--- a/lib-secs2-hsms-go/pkg/ast/binary.go
+++ b/lib-secs2-hsms-go/pkg/ast/binary.go
@@ -54,7 +54,10 @@ func NewBinaryNode(values ...interface{}) ItemNode {
 			nodeValues = append(nodeValues, int(v))
 		case string:
 			if strings.HasPrefix(v, "0b") {
-				vAsInt64, _ := strconv.ParseInt(v, 0, 0)
+				vAsInt64, err := strconv.ParseInt(v, 0, 0)
+				if err != nil {
+					panic("invalid binary string")
+				}
 				nodeValues = append(nodeValues, int(vAsInt64))
 			} else {
 				if _, ok := nodeVariables[v]; ok {
diff --git a/lib-secs2-hsms-go/pkg/ast/int.go b/lib-secs2-hsms-go/pkg/ast/int.go
index 45e490e..2b00def 100644
--- a/lib-secs2-hsms-go/pkg/ast/int.go
+++ b/lib-secs2-hsms-go/pkg/ast/int.go
@@ -53,6 +53,9 @@ func NewIntNode(byteSize int, values ...interface{}) ItemNode {
 		case int64:
 			nodeValues = append(nodeValues, value)
 		case uint:
+			if uint64(value) > math.MaxInt64 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, int64(value))
 		case uint8:
 			nodeValues = append(nodeValues, int64(value))
diff --git a/lib-secs2-hsms-go/pkg/ast/uint.go b/lib-secs2-hsms-go/pkg/ast/uint.go
index fe6f131..fde0867 100644
--- a/lib-secs2-hsms-go/pkg/ast/uint.go
+++ b/lib-secs2-hsms-go/pkg/ast/uint.go
@@ -49,14 +49,29 @@ func NewUintNode(byteSize int, values ...interface{}) ItemNode {
 	for i, value := range values {
 		switch value := value.(type) {
 		case int:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int8:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int16:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int32:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case int64:
+			if value < 0 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, uint64(value))
 		case uint:
 			nodeValues = append(nodeValues, uint64(value))
-- 
2.43.0


From d8692cb86ac3e62aa24bcd4df9832183b37cb915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 09/64] fix: remove debug output from the SML parser

Every list and ASCII item was printed to standard output.
---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 0db1739..9ad750d 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -347,8 +347,6 @@ func (p *parser) parseList() (item ast.ItemNode, ok bool) {
 				return ast.NewEmptyItemNode(), false
 			}
 			values = append(values, childItem)
-			fmt.Println("childItem.ToBytes() : ", childItem.Size())
-			fmt.Println("childItem.ToBytes() : ", string(childItem.ToBytes()))
 
 		case tokenTypeVariable:
 			t = p.acceptAny()
@@ -466,8 +464,6 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 		}
 	}
 
-	fmt.Println("literal : ", literal)
-
 	return ast.NewASCIINode(literal), true
 }
 
-- 
2.43.0


From a70aeb4f862f2c3941b0fb6d211c0de9b6cf5cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 10/64] fix: report malformed SML literals instead of dropping
 their value

A quoted string with an invalid escape or a leading line break became an empty
string, and a malformed binary value became zero, without an error.
---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go  |  2 +-
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index a040773..a799f80 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -379,7 +379,7 @@ func lexQuotedString(l *lexer) stateFn {
 	l.accept(`"`)
 	i := strings.Index(l.input[l.pos:], `"`)
 	j := strings.IndexAny(l.input[l.pos:], "\r\n")
-	if i < 0 || (j > 0 && j < i) {
+	if i < 0 || (j >= 0 && j < i) {
 		return l.errorf("unclosed quoted string")
 	}
 	l.pos += i + 1 // Include the double quote
diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 9ad750d..8dbcb6e 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -417,7 +417,10 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 		switch t.typ {
 		case tokenTypeQuotedString:
-			val, _ := strconv.Unquote(t.val)
+			val, err := strconv.Unquote(t.val)
+			if err != nil {
+				p.errorf(t, "invalid escape sequence in quoted string %s", t.val)
+			}
 			for _, r := range val {
 				if r > unicode.MaxASCII {
 					val = ""
@@ -478,7 +481,10 @@ func (p *parser) parseBinary() (item ast.ItemNode, ok bool) {
 	for _, t := range p.getDataItemValueTokens() {
 		switch t.typ {
 		case tokenTypeNumber:
-			val, _ := strconv.ParseInt(t.val, 0, 0)
+			val, err := strconv.ParseInt(t.val, 0, 0)
+			if err != nil && err.(*strconv.NumError).Err == strconv.ErrSyntax {
+				p.errorf(t, "expected binary value, found %q", t.val)
+			}
 			if !(0 <= val && val < 256) {
 				val = 0
 				p.errorf(t, "binary value overflow, should be in range of [0, 256)")
-- 
2.43.0


From 2b096b81c77dc05e9e93436e84a52663515dd653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 11/64] fix: print double quotes and backslashes in ASCII items
 as character codes

Printed inside the quoted string they ended it or started an escape sequence,
so that the SML text of the message could not be read back.
---
 lib-secs2-hsms-go/pkg/ast/ascii.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ascii.go b/lib-secs2-hsms-go/pkg/ast/ascii.go
index 1243e8a..c50fad2 100644
--- a/lib-secs2-hsms-go/pkg/ast/ascii.go
+++ b/lib-secs2-hsms-go/pkg/ast/ascii.go
@@ -187,7 +187,7 @@ func (node *ASCIINode) String() string {
 	var sb strings.Builder
 	printableState := false
 	for _, ch := range node.value {
-		if ch < 32 || ch == 127 {
+		if ch < 32 || ch == 127 || ch == '"' || ch == '\\' {
 			// ch is a non-printable control character
 			// 32: space, which is the first printable character, 127: del
 			if printableState {
-- 
2.43.0


From f782f388d3af0a2a86653b6991347a7ab74e89b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 12/64] fix: bound memory and recursion of the SML parser

A large size on a duplicated variable allocated that many bytes, and deeply
nested lists overflowed the stack.
---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 8dbcb6e..a371875 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -46,12 +46,16 @@ func Parse(input string) (messages []*ast.DataMessage, errors, warnings []string
 	return p.messages, errors, warnings
 }
 
+// maxNestingDepth is the maximum number of data items nested in each other.
+const maxNestingDepth = 1001
+
 type parser struct {
 	input         string             // input string to parse
 	lexer         *lexer             // lexer to tokenize the input string
 	tokenQueue    []token            // token queue that the lexer tokenized
 	variableNames map[string]bool    // variable names in a message to check duplicates
 	ellipsisCount int                // ellipsis count in a message
+	depth         int                // number of data items around the current position
 	messages      []*ast.DataMessage // parsed messages
 	errors        []parseError       // parsing errors
 	warnings      []parseError       // parsing warnings
@@ -222,6 +226,13 @@ func (p *parser) parseDataItem() (item ast.ItemNode, ok bool) {
 		return ast.NewEmptyItemNode(), false
 	}
 
+	if p.depth == maxNestingDepth {
+		p.errorf(tokenLAB, "data items are nested too deeply")
+		return ast.NewEmptyItemNode(), false
+	}
+	p.depth++
+	defer func() { p.depth-- }()
+
 	defer func() {
 		if r := recover(); r != nil {
 			p.errorf(tokenLAB, "%v", r)
@@ -451,6 +462,9 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 			if _, ok := p.variableNames[t.val]; ok {
 				p.errorf(t, "duplicated variable name %q", t.val)
+				if minLength > ast.MAX_BYTE_SIZE {
+					return ast.NewEmptyItemNode(), false
+				}
 				return ast.NewASCIINode(strings.Repeat("*", minLength)), true
 			} else {
 				p.variableNames[t.val] = true
-- 
2.43.0


From 5c992551d0758710005146560d330f303b780ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 13/64] fix: keep multi-byte characters at the end of SML
 comments intact

The trailing bytes 0x85 and 0xA0 of a UTF-8 character were taken as white
space, and lexed as part of the message.
---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index a799f80..efb4ed7 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -338,10 +338,7 @@ func lexComment(l *lexer) stateFn {
 		return lexEOF
 	}
 
-	for unicode.IsSpace(rune(l.input[l.pos+i-1])) {
-		i -= 1
-	}
-	l.pos += i
+	l.pos += len(strings.TrimRight(l.input[l.pos:l.pos+i], " \t\r"))
 	l.emit(tokenTypeComment)
 	return l.lastState
 }
-- 
2.43.0


From a0291afc8beb28fe17decda038120d144db2a7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 14/64] fix: do not take SML message names apart

A message name that starts like another header element, such as WaferMap or
S1F1Reply, was split into that element and the rest of the name, and a name
starting with an unusual white space made the parser panic.
---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 30 +++++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index efb4ed7..2097f77 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -54,6 +54,7 @@ type lexer struct {
 	start     int        // start position of a token being lexed in input string
 	width     int        // width of last rune read from input
 	tokens    chan token // the channel to report scanned tokens
+	lastToken tokenType  // last token type of the message being lexed, except comments
 }
 
 const eof rune = -1
@@ -61,9 +62,10 @@ const eof rune = -1
 // lex creates a new scanner for the input string.
 func lex(input string) *lexer {
 	l := &lexer{
-		input:  input,
-		state:  lexMessageHeader,
-		tokens: make(chan token, 2),
+		input:     input,
+		state:     lexMessageHeader,
+		tokens:    make(chan token, 2),
+		lastToken: tokenTypeMessageEnd,
 	}
 	return l
 }
@@ -199,25 +201,30 @@ func lexMessageHeader(l *lexer) stateFn {
 
 		// Handle stream function code
 		re := regexp.MustCompile(`^[Ss]\d+[Ff]\d+`)
-		if loc := re.FindStringIndex(l.input[l.pos:]); loc != nil {
+		if loc := re.FindStringIndex(l.input[l.pos:]); loc != nil &&
+			(l.lastToken == tokenTypeMessageEnd || l.lastToken == tokenTypeMessageName) {
 			l.pos += loc[1]
 			l.emitUppercase(tokenTypeStreamFunction)
+			l.lastToken = tokenTypeStreamFunction
 			return lexMessageHeader
 		}
 
 		// Handle wait bit
-		re = regexp.MustCompile(`^([Ww]|\[[Ww]\])`)
-		if loc := re.FindStringIndex(l.input[l.pos:]); loc != nil {
-			l.pos += loc[1]
+		re = regexp.MustCompile(`^([Ww]|\[[Ww]\])([Hh](->|<->|<-)[Ee]|[\s./<]|$)`)
+		if loc := re.FindStringSubmatchIndex(l.input[l.pos:]); loc != nil && l.lastToken == tokenTypeStreamFunction {
+			l.pos += loc[3]
 			l.emitUppercase(tokenTypeWaitBit)
+			l.lastToken = tokenTypeWaitBit
 			return lexMessageHeader
 		}
 
 		// Handle message direction
 		re = regexp.MustCompile(`^[Hh](->|<->|<-)[Ee]`)
-		if loc := re.FindStringIndex(l.input[l.pos:]); loc != nil {
+		if loc := re.FindStringIndex(l.input[l.pos:]); loc != nil &&
+			(l.lastToken == tokenTypeStreamFunction || l.lastToken == tokenTypeWaitBit) {
 			l.pos += loc[1]
 			l.emitUppercase(tokenTypeDirection)
+			l.lastToken = tokenTypeDirection
 			return lexMessageHeader
 		}
 
@@ -228,11 +235,16 @@ func lexMessageHeader(l *lexer) stateFn {
 			l.ignore()
 		case '.':
 			l.emit(tokenTypeMessageEnd)
+			l.lastToken = tokenTypeMessageEnd
 			return lexMessageHeader
 		case '<':
 			l.emit(tokenTypeLeftAngleBracket)
 			return lexMessageText
 		default:
+			if unicode.IsSpace(r) {
+				l.ignore()
+				continue
+			}
 			for {
 				r := l.next()
 				if r == eof || unicode.IsSpace(r) || strings.HasPrefix(l.input[l.pos-1:], "//") {
@@ -241,6 +253,7 @@ func lexMessageHeader(l *lexer) stateFn {
 				}
 			}
 			l.emit(tokenTypeMessageName)
+			l.lastToken = tokenTypeMessageName
 			return lexMessageHeader
 		}
 	}
@@ -305,6 +318,7 @@ func lexMessageText(l *lexer) stateFn {
 			return lexMessageText
 		case '.':
 			l.emit(tokenTypeMessageEnd)
+			l.lastToken = tokenTypeMessageEnd
 			return lexMessageHeader
 		case '[':
 			l.backup()
-- 
2.43.0


From 4568ee4ac315a2869b23a31316cd93a08709b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 15/64] fix: do not print undecodable messages to standard
 output

The codec dumped every malformed frame; the error it returns says the same.
---
 codec/secs2.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/codec/secs2.go b/codec/secs2.go
index ab38fe2..9ac21b8 100644
--- a/codec/secs2.go
+++ b/codec/secs2.go
@@ -3,7 +3,6 @@ package codec
 import (
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"io"
 
 	link "github.com/younglifestyle/secs4go"
@@ -65,7 +64,6 @@ func (c *secsIICodec) Receive() (interface{}, error) {
 
 	msg, ok := hsms.Parse(c.bodyBuf[:required])
 	if !ok {
-		fmt.Printf("hsms decode failed, len=%d data=%x\n", required, c.bodyBuf[:required])
 		return nil, ErrMsgParsing
 	}
 
-- 
2.43.0


From 8b4bbef7f64206536a84ce525d4aac88f4c6e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 16/64] fix: grow the receive buffer with the data that arrives

Four length bytes from a peer made the codec allocate up to 4 GB.
---
 codec/secs2.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/codec/secs2.go b/codec/secs2.go
index 9ac21b8..36adec0 100644
--- a/codec/secs2.go
+++ b/codec/secs2.go
@@ -12,6 +12,9 @@ import (
 var ErrMsgParsing = errors.New("message parsing error")
 var ErrMsgFormat = errors.New("message format error")
 
+// readChunkSize is the number of bytes read at once from the body of a message.
+const readChunkSize = 64 * 1024
+
 type SecsIIProtocol struct{}
 
 func (s *SecsIIProtocol) NewCodec(rw io.ReadWriter) (link.Codec, error) {
@@ -50,15 +53,7 @@ func (c *secsIICodec) Receive() (interface{}, error) {
 	}
 
 	required := int(msgLength) + 4
-	if cap(c.bodyBuf) < required {
-		c.bodyBuf = make([]byte, required)
-	} else {
-		c.bodyBuf = c.bodyBuf[:required]
-	}
-
-	binary.BigEndian.PutUint32(c.bodyBuf, msgLength)
-
-	if _, err := io.ReadFull(c.rw, c.bodyBuf[4:required]); err != nil {
+	if err := c.readBody(required); err != nil {
 		return nil, err
 	}
 
@@ -70,6 +65,28 @@ func (c *secsIICodec) Receive() (interface{}, error) {
 	return msg, nil
 }
 
+// readBody fills c.bodyBuf with the length bytes and the rest of the message. The
+// buffer grows with the data received: the length bytes alone are not trusted.
+func (c *secsIICodec) readBody(required int) error {
+	c.bodyBuf = append(c.bodyBuf[:0], c.headBuf...)
+	for len(c.bodyBuf) < required {
+		start := len(c.bodyBuf)
+		end := required
+		if end-start > readChunkSize {
+			end = start + readChunkSize
+		}
+		if end > cap(c.bodyBuf) {
+			c.bodyBuf = append(c.bodyBuf, make([]byte, end-start)...)
+		} else {
+			c.bodyBuf = c.bodyBuf[:end]
+		}
+		if _, err := io.ReadFull(c.rw, c.bodyBuf[start:end]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (c *secsIICodec) Send(msg interface{}) error {
 	b, ok := msg.([]byte)
 	if !ok {
-- 
2.43.0


From 4da3afe0673b3594710f631125f1a86368e22771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 17/64] fix: reject FixLen packet sizes that do not fit an int

An 8-byte head with the top bit set made Receive panic.
---
 codec/fixlen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index 3425c7e..f35525b 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -123,7 +123,7 @@ func (c *fixlenCodec) Receive() (interface{}, error) {
 		return nil, err
 	}
 	size := c.headDecoder(c.headBuf)
-	if size > c.maxRecv {
+	if size < 0 || size > c.maxRecv {
 		return nil, ErrTooLargePacket
 	}
 	if cap(c.bodyBuf) < size {
-- 
2.43.0


From 127ca11a59a65772c961cfc13862c5d5865f9356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 18/64] fix: enforce the maximum send size of FixLen

A larger packet was sent with a truncated size in its head, which broke up the
stream for the receiver.
---
 codec/fixlen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index f35525b..d428c09 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -146,6 +146,9 @@ func (c *fixlenCodec) Send(msg interface{}) error {
 		return err
 	}
 	buff := c.sendBuf.Bytes()
+	if len(buff)-c.n > c.maxSend {
+		return ErrTooLargePacket
+	}
 	c.headEncoder(buff, len(buff)-c.n)
 	_, err = c.rw.Write(buff)
 	return err
-- 
2.43.0


From ea4b099fe9e514146612cfdf58ee34fbcb0a82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 19/64] fix: return an error for JSON messages without a body

Receive dereferenced a nil pointer.
---
 codec/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codec/json.go b/codec/json.go
index 0e24239..4e9498c 100644
--- a/codec/json.go
+++ b/codec/json.go
@@ -71,6 +71,9 @@ func (c *jsonCodec) Receive() (interface{}, error) {
 	if err != nil {
 		return nil, err
 	}
+	if in.Body == nil {
+		return nil, ErrMsgFormat
+	}
 	var body interface{}
 	if in.Head != "" {
 		if t, exists := c.p.types[in.Head]; exists {
-- 
2.43.0


From b6b66e81d7d266cd459d44310a3c6fb638deeaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 20/64] fix: do not lose the wake-up of a waiting Get

An item put between the emptiness check and the wait was not noticed: Get then
waited for its whole timeout and failed although the item was in the queue.
---
 utils/queue.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/utils/queue.go b/utils/queue.go
index e063378..065aa79 100644
--- a/utils/queue.go
+++ b/utils/queue.go
@@ -14,13 +14,18 @@ type Deque struct {
 }
 
 func NewDeque() *Deque {
-	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{})}
+	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{}, 1)}
 }
 
 func (s *Deque) Put(item interface{}) {
 	s.Lock()
 	s.container.PushFront(item)
 	s.Unlock()
+	s.notify()
+}
+
+// notify leaves a notification for one waiting Get, now or later.
+func (s *Deque) notify() {
 	select {
 	case s.notEmptyNotify <- struct{}{}:
 	default:
@@ -44,12 +49,17 @@ func (s *Deque) Get(timeout int) (interface{}, error) {
 		select {
 		case <-s.notEmptyNotify:
 		case <-time.After(remaining):
-			return nil, errors.New("time out in Get")
+			// check once more: the item may have arrived together with the timeout
 		}
 		s.Lock()
 	}
 	lastContainerItem = s.container.Back()
 	item = s.container.Remove(lastContainerItem)
+	notEmpty := s.container.Len() > 0
 	s.Unlock()
+	if notEmpty {
+		// several items may share one notification
+		s.notify()
+	}
 	return item, nil
 }
-- 
2.43.0


From aced8666b355a64af261f49acb6206f95da6ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 21/64] fix: Event.RemoveCallback removes the callback

It compared the addresses of two local variables, which are never equal.
---
 common/events.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/events.go b/common/events.go
index fee60da..1d5ecb7 100644
--- a/common/events.go
+++ b/common/events.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"sync"
+	"unsafe"
 )
 
 // Event represents a class to handle the callbacks for a single event.
@@ -24,14 +25,20 @@ func (e *Event) RemoveCallback(callback func(data map[string]interface{})) {
 	defer e.mutex.Unlock()
 
 	for i, cb := range e.callbacks {
-		if &cb == &callback {
+		if funcValue(cb) == funcValue(callback) {
 			// Remove the callback by copying the slice without the element at index i.
-			e.callbacks = append(e.callbacks[:i], e.callbacks[i+1:]...)
+			e.callbacks = append(e.callbacks[:i:i], e.callbacks[i+1:]...)
 			return
 		}
 	}
 }
 
+// funcValue returns the identity of a function value: copies of a function value
+// have the same identity, different closures of the same function do not.
+func funcValue(callback func(data map[string]interface{})) unsafe.Pointer {
+	return *(*unsafe.Pointer)(unsafe.Pointer(&callback))
+}
+
 // Fire raises the event and calls all callbacks.
 func (e *Event) Fire(data map[string]interface{}) {
 	e.mutex.Lock()
-- 
2.43.0


From a4fc5c852ef71bc139fbe4105adbb640716e0dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 22/64] fix: let event callbacks use the event they are called
 for

Fire held the mutex while calling them, so that adding or removing a callback,
or firing the event again, from a callback never returned.
---
 common/events.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/events.go b/common/events.go
index 1d5ecb7..997026a 100644
--- a/common/events.go
+++ b/common/events.go
@@ -39,12 +39,13 @@ func funcValue(callback func(data map[string]interface{})) unsafe.Pointer {
 	return *(*unsafe.Pointer)(unsafe.Pointer(&callback))
 }
 
-// Fire raises the event and calls all callbacks.
+// Fire raises the event and calls all callbacks. Callbacks may use the event.
 func (e *Event) Fire(data map[string]interface{}) {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
+	callbacks := append([]func(data map[string]interface{}){}, e.callbacks...)
+	e.mutex.Unlock()
 
-	for _, callback := range e.callbacks {
+	for _, callback := range callbacks {
 		callback(data)
 	}
 }
-- 
2.43.0


From d0bf5bdaa1758867c762f41e187b8cf108f89046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 23/64] fix: take closed sessions out of channels reliably

A close callback added while the session was closing was never called, so the
channel kept the closed session; a session replaced while it was closing removed
its replacement; and running the callbacks under the callback lock could
deadlock with Channel.Put.
---
 channel.go | 11 ++++++++++-
 session.go | 27 ++++++++++++++++-----------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/channel.go b/channel.go
index 225436c..6c82baf 100644
--- a/channel.go
+++ b/channel.go
@@ -48,7 +48,7 @@ func (channel *Channel) Put(key KEY, session *Session) {
 		channel.remove(key, session)
 	}
 	session.AddCloseCallback(channel, key, func() {
-		channel.Remove(key)
+		channel.removeSession(key, session)
 	})
 	channel.sessions[key] = session
 }
@@ -68,6 +68,15 @@ func (channel *Channel) Remove(key KEY) bool {
 	return exists
 }
 
+// removeSession removes the session if it is still the one stored with the key.
+func (channel *Channel) removeSession(key KEY, session *Session) {
+	channel.mutex.Lock()
+	defer channel.mutex.Unlock()
+	if channel.sessions[key] == session {
+		channel.remove(key, session)
+	}
+}
+
 func (channel *Channel) FetchAndRemove(callback func(*Session)) {
 	channel.mutex.Lock()
 	defer channel.mutex.Unlock()
diff --git a/session.go b/session.go
index a010324..709bf9f 100644
--- a/session.go
+++ b/session.go
@@ -24,6 +24,7 @@ type Session struct {
 	closeMutex         sync.Mutex
 	firstCloseCallback *closeCallback
 	lastCloseCallback  *closeCallback
+	closeCallbacksRun  bool
 
 	State interface{}
 }
@@ -169,13 +170,15 @@ type closeCallback struct {
 }
 
 func (session *Session) AddCloseCallback(handler, key interface{}, callback func()) {
-	if session.IsClosed() {
-		return
-	}
-
 	session.closeMutex.Lock()
 	defer session.closeMutex.Unlock()
 
+	if session.closeCallbacksRun {
+		// Not called from here, because the caller may hold locks the callback needs.
+		go callback()
+		return
+	}
+
 	newItem := &closeCallback{handler, key, callback, nil}
 
 	if session.firstCloseCallback == nil {
@@ -187,10 +190,6 @@ func (session *Session) AddCloseCallback(handler, key interface{}, callback func
 }
 
 func (session *Session) RemoveCloseCallback(handler, key interface{}) {
-	if session.IsClosed() {
-		return
-	}
-
 	session.closeMutex.Lock()
 	defer session.closeMutex.Unlock()
 
@@ -212,9 +211,15 @@ func (session *Session) RemoveCloseCallback(handler, key interface{}) {
 
 func (session *Session) invokeCloseCallbacks() {
 	session.closeMutex.Lock()
-	defer session.closeMutex.Unlock()
-
-	for callback := session.firstCloseCallback; callback != nil; callback = callback.Next {
+	callback := session.firstCloseCallback
+	session.firstCloseCallback = nil
+	session.lastCloseCallback = nil
+	session.closeCallbacksRun = true
+	session.closeMutex.Unlock()
+
+	// Called without the lock, because callbacks take locks under which callbacks
+	// are added and removed.
+	for ; callback != nil; callback = callback.Next {
 		callback.Func()
 	}
 }
-- 
2.43.0


From 0f45b4d064f66827b00b5b32f66a6945e66ddf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 24/64] fix: do not send on a session that has been cleared

The control message senders used the session without checking that it is
still there, so a connection closed at the wrong moment (a select.req or
linktest.req right behind a separate.req) ended the process. The session
is also read and replaced by different goroutines.
---
 hsms/connection.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index a635b6e..b1b6cb5 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -2,6 +2,7 @@ package hsms
 
 import (
 	"fmt"
+	"sync"
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -25,7 +26,9 @@ type HsmsConnection struct {
 	remotePort    int
 	sessionID     int
 	hp            *HsmsProtocol
-	connection    *link.Session
+
+	connectionMu sync.RWMutex
+	connection   *link.Session
 }
 
 func NewHsmsConnection(active bool, address string, port int, sessionID int, delegate *HsmsProtocol) *HsmsConnection {
@@ -40,31 +43,37 @@ func NewHsmsConnection(active bool, address string, port int, sessionID int, del
 }
 
 func (c *HsmsConnection) Session() *link.Session {
+	c.connectionMu.RLock()
+	defer c.connectionMu.RUnlock()
 	return c.connection
 }
 
 func (c *HsmsConnection) SetSession(session *link.Session) {
+	c.connectionMu.Lock()
+	defer c.connectionMu.Unlock()
 	c.connection = session
 }
 
 func (c *HsmsConnection) Send(msg interface{}) error {
-	if c.connection == nil {
+	connection := c.Session()
+	if connection == nil {
 		return ErrNotConnected
 	}
-	return c.connection.Send(msg)
+	return connection.Send(msg)
 }
 
 func (c *HsmsConnection) Close() error {
-	if c.connection == nil {
+	connection := c.Session()
+	if connection == nil {
 		return nil
 	}
-	return c.connection.Close()
+	return connection.Close()
 }
 
 func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte) {
 	rejectReq := ast.NewHSMSMessageRejectReqFromMsg(packet, reasonCode)
 	c.hp.logControlMessage("TX", rejectReq)
-	if err := c.connection.Send(rejectReq.ToBytes()); err != nil {
+	if err := c.Send(rejectReq.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject rsp failed", "error", err)
 	}
 }
@@ -76,7 +85,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", message)
-	if err := c.connection.Send(message.ToBytes()); err != nil {
+	if err := c.Send(message.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.req failed", "error", err)
 		return
 	}
@@ -89,7 +98,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageDeselectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.rsp failed", "error", err)
 	}
 }
@@ -97,7 +106,7 @@ func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status Control
 func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageSelectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.rsp failed", "error", err)
 	}
 }
@@ -105,7 +114,7 @@ func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlSt
 func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 	response := ast.NewHSMSMessageLinktestRsp(message)
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.rsp failed", "error", err)
 	}
 }
@@ -113,7 +122,7 @@ func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason) {
 	reject := ast.NewHSMSMessageRejectReqFromMsg(message, byte(reason))
 	c.hp.logControlMessage("TX", reject)
-	if err := c.connection.Send(reject.ToBytes()); err != nil {
+	if err := c.Send(reject.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject.req failed", "error", err)
 	}
 }
@@ -125,7 +134,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
 		return err
 	}
@@ -158,7 +167,7 @@ func (c *HsmsConnection) sendDeselectReq() error {
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
 		return err
 	}
-- 
2.43.0


From 44ceb1a6d913af8c9d30ab2c92fc7e69e288ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 25/64] fix: end linktests with the connection they belong to

Linktests of all connections shared one stop flag, which was cleared when
the next connection started. A stop that was cleared before it was seen
left the linktests of a closed connection running, so that every
reconnect could add a sender.
---
 hsms/protocol.go | 70 +++++++++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 8520fa6..dec5d28 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -97,9 +97,8 @@ type HsmsProtocol struct {
 	handlers       map[string]DataMessageHandler
 	defaultHandler DataMessageHandler
 
-	linktestTimerMu sync.Mutex
-	linktestTimer   *time.Ticker
-	disconnectFlg   chan struct{}
+	linktestMu   sync.Mutex
+	linktestStop chan struct{} // closed to end the linktests of the current connection
 
 	t7TimerMu sync.Mutex
 	t7Timer   *time.Timer
@@ -133,7 +132,6 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		timeouts:             NewSecsTimeout(),
 		systemQueues:         make(map[uint32]*utils.Deque),
 		handlers:             make(map[string]DataMessageHandler),
-		disconnectFlg:        make(chan struct{}, 1),
 		connectThreadRunning: atomic.NewBool(false),
 	}
 	h.logCfg.Writer = os.Stderr
@@ -150,54 +148,45 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 	return h
 }
 
-func (p *HsmsProtocol) clearDisconnectFlag() {
-	for {
-		select {
-		case <-p.disconnectFlg:
-		default:
-			return
-		}
-	}
+// newLinktestStop ends the linktests of the previous connection, if there are any,
+// and returns the channel that is closed to end those of the new one.
+func (p *HsmsProtocol) newLinktestStop() chan struct{} {
+	p.stopLinktestTimer()
+
+	stop := make(chan struct{})
+	p.linktestMu.Lock()
+	p.linktestStop = stop
+	p.linktestMu.Unlock()
+	return stop
 }
 
-func (p *HsmsProtocol) startLinktestTimer() {
+func (p *HsmsProtocol) startLinktestTimer(stop chan struct{}) {
 	ticker := time.NewTicker(time.Duration(p.timeouts.Linktest()) * time.Second)
+	defer ticker.Stop()
 
-	p.linktestTimerMu.Lock()
-	p.linktestTimer = ticker
-	p.linktestTimerMu.Unlock()
-
-	defer func() {
-		ticker.Stop()
-		p.linktestTimerMu.Lock()
-		if p.linktestTimer == ticker {
-			p.linktestTimer = nil
+	for {
+		select {
+		case <-stop:
+			return
+		default:
+			p.hsmsConnection.sendLinktestReq()
 		}
-		p.linktestTimerMu.Unlock()
-	}()
 
-	p.clearDisconnectFlag()
-	p.hsmsConnection.sendLinktestReq()
-
-	for {
 		select {
 		case <-ticker.C:
-			p.hsmsConnection.sendLinktestReq()
-		case <-p.disconnectFlg:
+		case <-stop:
 			return
 		}
 	}
 }
 
 func (p *HsmsProtocol) stopLinktestTimer() {
-	p.linktestTimerMu.Lock()
-	defer p.linktestTimerMu.Unlock()
+	p.linktestMu.Lock()
+	defer p.linktestMu.Unlock()
 
-	if p.linktestTimer != nil {
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
+	if p.linktestStop != nil {
+		close(p.linktestStop)
+		p.linktestStop = nil
 	}
 }
 
@@ -260,6 +249,7 @@ func (p *HsmsProtocol) onStateDisconnect(ctx context.Context, _ *fsm.Event) {
 
 // onStateConnect is triggered when the HSMS connection transitions out of NOT-CONNECTED.
 func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
+	stop := p.newLinktestStop()
 	go func() {
 		if p.active {
 			if err := p.hsmsConnection.sendSelectReq(); err != nil {
@@ -272,7 +262,7 @@ func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
 			return
 		}
 
-		p.startLinktestTimer()
+		p.startLinktestTimer(stop)
 	}()
 }
 
@@ -352,10 +342,6 @@ func (p *HsmsProtocol) Disable() {
 			// allow a brief moment for remote to process before closing
 			time.Sleep(200 * time.Millisecond)
 		}
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
 		if err := p.hsmsConnection.Close(); err != nil {
 			p.logger.Error("close session failed", "error", err)
 		}
-- 
2.43.0


From 2037c88d59df087bc082bc56cf4bc30d1aa6edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 26/64] fix: do not take primary messages for replies

Messages were matched to open transactions by their system bytes alone. A
primary message of the other side that happened to have the system bytes
of an open transaction was returned as its reply and not handled. Stream
9 messages that answer an open transaction were not reported.
---
 hsms/protocol.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index dec5d28..7c3cf7c 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -868,9 +868,7 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 			continue
 		}
 
-		systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(dataMessage)
+		if p.deliverReply(dataMessage) {
 			continue
 		}
 
@@ -878,6 +876,26 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 	}
 }
 
+// deliverReply hands message to the open transaction it answers, if there is one. A
+// primary message starts a transaction of its own, whatever its system bytes are,
+// except that a stream 9 message can report an error of the open transaction.
+func (p *HsmsProtocol) deliverReply(message *ast.DataMessage) bool {
+	if message.FunctionCode()%2 != 0 && message.StreamCode() != 9 {
+		return false
+	}
+
+	queue, ok := p.fetchQueue(binary.BigEndian.Uint32(message.SystemBytes()))
+	if !ok {
+		return false
+	}
+
+	if message.StreamCode() == 9 {
+		p.triggerS9ErrorCallback(message)
+	}
+	queue.Put(message)
+	return true
+}
+
 func (p *HsmsProtocol) ensureReady(requireSelected bool) error {
 	if !p.connected.Load() || p.hsmsConnection.Session() == nil {
 		return ErrNotConnected
-- 
2.43.0


From 0f33aa986674517f792186b28457b2a024ff991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 27/64] fix: leave the connected state when the receiver stops

The receiver also stops without an error, between two messages, when the
protocol is disabled. The connection state then stayed SELECTED, and the
next connection was used without select.req, linktests and T7.
---
 hsms/protocol.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 7c3cf7c..cdee091 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -788,6 +788,16 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 		if connection != nil {
 			_ = connection.Close()
 		}
+
+		// The loop also ends without an error, when the protocol is disabled.
+		p.connected.Store(false)
+		p.stopLinktestTimer()
+		if p.connectionState.CurrentState() != StateNotConnected {
+			if err := p.connectionState.Disconnect(); err != nil {
+				p.logger.Error("change state to NOT-CONNECTED failed", "error", err)
+			}
+		}
+
 		if sess := p.hsmsConnection.Session(); sess == connection {
 			p.hsmsConnection.SetSession(nil)
 		}
-- 
2.43.0


From d6d96a2d7aed54456f142f9f6961753c33ad853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 28/64] fix: keep connecting after Disable and Enable in quick
 succession

Enable did not start a connect thread while the one of the previous
Enable was on its way out, so that nothing connected afterwards. A passive
endpoint that was disabled before it knew its listener kept listening.
---
 hsms/protocol.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index cdee091..bcf3396 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -371,19 +371,32 @@ func (p *HsmsProtocol) waitForConnectionClosure(timeout time.Duration) {
 }
 
 func (p *HsmsProtocol) startConnectThread() {
-	defer p.connectThreadRunning.Store(false)
+	for {
+		gaveUp := p.keepConnected()
+		p.connectThreadRunning.Store(false)
+
+		// Enable does not start a thread while this one is still running.
+		if gaveUp || !p.enabled.Load() || !p.connectThreadRunning.CompareAndSwap(false, true) {
+			return
+		}
+	}
+}
+
+// keepConnected connects until the protocol is disabled. It reports whether it gave
+// up connecting before that.
+func (p *HsmsProtocol) keepConnected() bool {
 	for p.enabled.Load() {
 		if p.active {
 			if err := p.activeConnect(); err != nil {
 				if !p.enabled.Load() {
-					return
+					return false
 				}
 				p.logger.Error("connect failed", "error", err)
 
 				// Check if auto-reconnect is enabled
 				if !p.timeouts.AutoReconnect() {
 					p.logger.Info("auto-reconnect disabled, stopping connection attempts")
-					return
+					return true
 				}
 
 				// Increment reconnect attempts
@@ -394,7 +407,7 @@ func (p *HsmsProtocol) startConnectThread() {
 				if maxAttempts > 0 && p.reconnectAttempts > maxAttempts {
 					p.logger.Warn("max reconnect attempts reached, stopping", "maxAttempts", maxAttempts)
 					p.reconnectAttempts = 0
-					return
+					return true
 				}
 
 				// Calculate exponential backoff delay
@@ -407,7 +420,7 @@ func (p *HsmsProtocol) startConnectThread() {
 			p.reconnectAttempts = 0
 
 			if !p.enabled.Load() {
-				return
+				return false
 			}
 			time.Sleep(time.Duration(p.timeouts.T5ConnSeparateTimeout()) * time.Second)
 			continue
@@ -415,7 +428,7 @@ func (p *HsmsProtocol) startConnectThread() {
 
 		if err := p.passiveConnect(); err != nil {
 			if !p.enabled.Load() {
-				return
+				return false
 			}
 			p.logger.Error("listen failed", "error", err)
 			time.Sleep(time.Second)
@@ -423,6 +436,7 @@ func (p *HsmsProtocol) startConnectThread() {
 		}
 
 	}
+	return false
 }
 
 func (p *HsmsProtocol) passiveConnect() error {
@@ -435,6 +449,11 @@ func (p *HsmsProtocol) passiveConnect() error {
 	}
 
 	p.serverMu.Lock()
+	if !p.enabled.Load() {
+		p.serverMu.Unlock()
+		server.Stop()
+		return nil
+	}
 	p.server = server
 	p.serverMu.Unlock()
 
-- 
2.43.0


From b68aa8b06c7440b5a7c39b804aed041029666a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 29/64] fix: do not reconnect after a connection is lost when
 auto-reconnect is off

The setting was only used when a connection could not be established.
---
 hsms/protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index bcf3396..ca6bb28 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -422,6 +422,10 @@ func (p *HsmsProtocol) keepConnected() bool {
 			if !p.enabled.Load() {
 				return false
 			}
+			if !p.timeouts.AutoReconnect() {
+				p.logger.Info("connection closed, auto-reconnect disabled")
+				return true
+			}
 			time.Sleep(time.Duration(p.timeouts.T5ConnSeparateTimeout()) * time.Second)
 			continue
 		}
-- 
2.43.0


From afe49d95a8227689629bf29424da0cbba0036205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 30/64] fix: do not close a selected connection when T7 has
 already been stopped

The timer function closed the connection even when select.req arrived
while it was starting.
---
 hsms/protocol.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index ca6bb28..31c6643 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -202,11 +202,13 @@ func (p *HsmsProtocol) startT7Timer() {
 	}
 	p.t7Timer = time.AfterFunc(duration, func() {
 		p.logger.Warn("T7 timeout", "duration", duration)
-		p.connected.Store(false)
-		p.stopLinktestTimer()
 		if err := p.connectionState.TimeoutT7(); err != nil {
+			// Selected or disconnected in the meantime.
 			p.logger.Error("timeoutT7 transition error", "error", err)
+			return
 		}
+		p.connected.Store(false)
+		p.stopLinktestTimer()
 		if err := p.hsmsConnection.Close(); err != nil {
 			p.logger.Error("close session after T7 timeout", "error", err)
 		}
-- 
2.43.0


From 6a29e334dfcb9c0b3cb0fad5c0cfa17f35993a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 31/64] fix: do not answer messages that do not ask for a reply

Replies were sent whether or not the wait bit of the primary message was
set. An unsolicited S5F1 or S6F11 was answered with S5F2 or S6F12, which
the sender, having no open transaction, rejected with S9F5.
---
 hsms/protocol.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 31c6643..3b0d57c 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -627,7 +627,8 @@ func (p *HsmsProtocol) invokeHandler(handler DataMessageHandler, msg *ast.DataMe
 		return
 	}
 
-	if response == nil {
+	// Without the wait bit, the sender does not expect a reply.
+	if response == nil || msg.WaitBit() == "false" {
 		return
 	}
 
-- 
2.43.0


From 90224a678cdbeeffca3b8b35f2d5d48a778815c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 32/64] fix: do not panic on identifiers beyond 32 bits or
 ASCII

Identifiers above 4294967295 were put in a U4 item, which panics: an S2F33
with such a report identifier ended the process. Non-ASCII identifiers
panicked likewise instead of being reported as unsupported.
---
 gem/id_utils.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gem/id_utils.go b/gem/id_utils.go
index 299d75b..8578bf7 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -2,6 +2,8 @@ package gem
 
 import (
 	"fmt"
+	"math"
+	"unicode"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
@@ -50,6 +52,11 @@ func newIDInfo(value interface{}) (idInfo, error) {
 		}
 		return newIDInfoFromUint(uint64(v))
 	case string:
+		for _, ch := range v {
+			if ch > unicode.MaxASCII {
+				return idInfo{}, fmt.Errorf("non-ASCII identifier %q not supported", v)
+			}
+		}
 		return idInfo{raw: v, node: ast.NewASCIINode(v), key: fmt.Sprintf("S:%s", v)}, nil
 	default:
 		return idInfo{}, fmt.Errorf("unsupported identifier type %T", value)
@@ -57,7 +64,11 @@ func newIDInfo(value interface{}) (idInfo, error) {
 }
 
 func newIDInfoFromUint(value uint64) (idInfo, error) {
-	node := ast.NewUintNode(4, value)
+	byteSize := 4
+	if value > math.MaxUint32 {
+		byteSize = 8
+	}
+	node := ast.NewUintNode(byteSize, value)
 	return idInfo{raw: value, node: node, key: fmt.Sprintf("N:%d", value)}, nil
 }
 
-- 
2.43.0


From 7cbf3f38d56ca35f0a9defc5dee054825bbcbb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 33/64] fix: do not enable some events of an S2F37 that is
 rejected

The events before the unknown one were already enabled or disabled when
the message was answered with an error.
---
 gem/collection_event_handlers.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 6743e92..7f2d929 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -329,12 +329,13 @@ func (g *GemHandler) setCollectionEventState(enable bool, ceids []idInfo) ERACKC
 	}
 
 	for _, ce := range ceids {
-		if link, ok := g.eventLinks[ce.key]; ok {
-			link.enabled = enable
-		} else {
+		if _, ok := g.eventLinks[ce.key]; !ok {
 			return ERACKCEIDUnknown
 		}
 	}
+	for _, ce := range ceids {
+		g.eventLinks[ce.key].enabled = enable
+	}
 	return ERACKAccepted
 }
 
-- 
2.43.0


From 126976e7912f19e7f04d02e8a651f56605349e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 34/64] fix: answer S2F17, S2F31, S5F3, S5F5 and S5F7 without
 panicking

The replies were built with a direction that messages do not have, which
panics: these requests of the host ended the equipment process.
---
 gem/alarm_handlers.go | 6 +++---
 gem/clock_handlers.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index bb5ade2..1a8a932 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -119,7 +119,7 @@ func (g *GemHandler) onS5F7(msg *ast.DataMessage) (*ast.DataMessage, error) {
 //   3 - At least one ALID cannot be enabled
 func (g *GemHandler) buildS5F4(ackc5 byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(ackc5))
-	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "E->H", body)
+	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "H<-E", body)
 }
 
 // buildS5F6 creates S5F6 response with alarm list.
@@ -146,7 +146,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "E->H", body)
+	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "H<-E", body)
 }
 
 // buildS5F8 creates S5F8 response with enabled alarm list (same format as S5F6).
@@ -169,7 +169,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "E->H", body)
+	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "H<-E", body)
 }
 
 // Public APIs for alarm management (Equipment side)
diff --git a/gem/clock_handlers.go b/gem/clock_handlers.go
index cf81a7c..3761ad5 100644
--- a/gem/clock_handlers.go
+++ b/gem/clock_handlers.go
@@ -15,7 +15,7 @@ func (g *GemHandler) onS2F17(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	// Build S2F18 response
 	body := ast.NewASCIINode(timeStr)
-	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "E->H", body), nil
+	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "H<-E", body), nil
 }
 
 // onS2F31 handles Date and Time Set Request (Equipment side).
@@ -54,7 +54,7 @@ func (g *GemHandler) onS2F31(msg *ast.DataMessage) (*ast.DataMessage, error) {
 // buildS2F32 creates S2F32 response with TIACK code.
 func (g *GemHandler) buildS2F32(tiack byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(tiack))
-	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "E->H", body)
+	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "H<-E", body)
 }
 
 // Public APIs for clock management
-- 
2.43.0


From d91ce8cf09c300f88d27731e652ea49ab50d43d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 35/64] fix: report alarms with identifiers above 65535

S5F1 put the identifier in a U2 item, which panics for larger ones. They
can be registered, enabled and listed.
---
 gem/alarm.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 4f693fb..50d6504 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -2,6 +2,7 @@ package gem
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -123,9 +124,14 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 		alcd = 1
 	}
 
+	alidSize := 2
+	if alarm.ID > math.MaxUint16 {
+		alidSize = 4
+	}
+
 	body := ast.NewListNode(
 		ast.NewBinaryNode(alcd),
-		ast.NewUintNode(2, alarm.ID),
+		ast.NewUintNode(alidSize, alarm.ID),
 		ast.NewASCIINode(alarm.Text),
 	)
 
-- 
2.43.0


From f33c54135a89b11ed09de676b712f4b4486fc6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 36/64] fix: unlink a deleted report everywhere it is linked

A report that was linked twice stayed linked after its deletion, and was
sent again when a report with the same identifier was defined. The links
were also read without the lock that guards them.
---
 gem/collection_event_handlers.go | 4 +---
 gem/collection_events.go         | 9 +++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 7f2d929..8d89652 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -106,12 +106,10 @@ func (g *GemHandler) buildCollectionEventPayload(key string) ([]ast.ItemNode, in
 
 	g.reportMu.RLock()
 	link, linked := g.eventLinks[key]
-	g.reportMu.RUnlock()
 	if !linked || !link.enabled || len(link.reports) == 0 {
+		g.reportMu.RUnlock()
 		return nil, 0, nil, nil
 	}
-
-	g.reportMu.RLock()
 	reportKeys := append([]string{}, link.reports...)
 	g.reportMu.RUnlock()
 
diff --git a/gem/collection_events.go b/gem/collection_events.go
index f7d0b26..38996fe 100644
--- a/gem/collection_events.go
+++ b/gem/collection_events.go
@@ -77,12 +77,13 @@ func newCollectionEventLink(reports []string) *collectionEventLink {
 }
 
 func (link *collectionEventLink) removeReport(key string) {
-	for idx, rpt := range link.reports {
-		if rpt == key {
-			link.reports = append(link.reports[:idx], link.reports[idx+1:]...)
-			return
+	kept := make([]string, 0, len(link.reports))
+	for _, rpt := range link.reports {
+		if rpt != key {
+			kept = append(kept, rpt)
 		}
 	}
+	link.reports = kept
 }
 
 func ensureIDInfoSlice(values []interface{}) ([]idInfo, error) {
-- 
2.43.0


From d5797c3703f1433c7dcc6db2b43c3ca8c4c1c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 37/64] fix: validate all equipment constants of S2F15 before
 setting any

When the validator of a later constant rejected its value, the earlier
ones had already been set although the message was answered with an
error.
---
 gem/equipment_constants.go       | 22 +++++++++++++++++-----
 gem/status_equipment_handlers.go | 10 +++++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/gem/equipment_constants.go b/gem/equipment_constants.go
index 7c6a75d..32e57ce 100644
--- a/gem/equipment_constants.go
+++ b/gem/equipment_constants.go
@@ -137,21 +137,33 @@ func (ec *EquipmentConstant) Value() (ast.ItemNode, error) {
 
 // ApplyValue stores or forwards a new value.
 func (ec *EquipmentConstant) ApplyValue(node ast.ItemNode) error {
+	if err := ec.validate(node); err != nil {
+		return err
+	}
+	return ec.applyValidated(node)
+}
+
+// validate reports whether a new value would be accepted.
+func (ec *EquipmentConstant) validate(node ast.ItemNode) error {
 	if node == nil {
 		return fmt.Errorf("nil value provided for equipment constant %v", ec.ID())
 	}
 
 	ec.mu.RLock()
 	validator := ec.validator
-	updater := ec.updater
-	provider := ec.provider
 	ec.mu.RUnlock()
 
 	if validator != nil {
-		if err := validator(node); err != nil {
-			return err
-		}
+		return validator(node)
 	}
+	return nil
+}
+
+func (ec *EquipmentConstant) applyValidated(node ast.ItemNode) error {
+	ec.mu.RLock()
+	updater := ec.updater
+	provider := ec.provider
+	ec.mu.RUnlock()
 
 	if updater != nil {
 		if err := updater(node); err != nil {
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index a31a1bb..4ddb7dd 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -395,7 +395,15 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 
 	for _, upd := range updates {
 		constant := g.equipmentConstants[upd.id.key]
-		if err := constant.ApplyValue(upd.value); err != nil {
+		if err := constant.validate(upd.value); err != nil {
+			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
+			return ECACKValidationError
+		}
+	}
+
+	for _, upd := range updates {
+		constant := g.equipmentConstants[upd.id.key]
+		if err := constant.applyValidated(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
 		}
-- 
2.43.0


From 842dd95adbad7848e555e02904b1280b7333c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 38/64] fix: reject process programs that cannot be stored

A body that is not text was acknowledged and replaced by an empty one.
---
 gem/process_program_handlers.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 4cbf641..e0d1cbf 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -55,11 +55,13 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if err != nil {
 		return g.buildS7F4(1), nil
 	}
-	body := ""
-	if ascii, ok := bodyNode.(*ast.ASCIINode); ok {
-		if val, ok := ascii.Values().(string); ok {
-			body = val
-		}
+	ascii, ok := bodyNode.(*ast.ASCIINode)
+	if !ok {
+		return g.buildS7F4(1), nil
+	}
+	body, ok := ascii.Values().(string)
+	if !ok {
+		return g.buildS7F4(1), nil
 	}
 
 	ack := 0
-- 
2.43.0


From afec6088de3b556cb6634e0e74d5559eb41c3d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 39/64] fix: do not store process programs that cannot be sent

A registered program with a body that is not ASCII made the equipment
panic when the host requested it.
---
 gem/process_programs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gem/process_programs.go b/gem/process_programs.go
index 36ee120..08c6aa1 100644
--- a/gem/process_programs.go
+++ b/gem/process_programs.go
@@ -3,6 +3,7 @@ package gem
 import (
 	"fmt"
 	"sync"
+	"unicode"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
@@ -26,6 +27,11 @@ func newProcessProgram(id interface{}, body string) (*ProcessProgram, error) {
 	if err != nil {
 		return nil, err
 	}
+	for _, ch := range body {
+		if ch > unicode.MaxASCII {
+			return nil, fmt.Errorf("non-ASCII body of process program %v not supported", id)
+		}
+	}
 	return &ProcessProgram{info: info, Body: body}, nil
 }
 
-- 
2.43.0


From 5a69e451d320e6d5e3fc6a02d02b79a182a9dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 40/64] fix: stay communicating when an older establish request
 fails

A host that had been asked to establish communication left the
communicating state again when its own S1F13, possibly one of an earlier
connection, timed out or was denied.
---
 gem/handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gem/handler.go b/gem/handler.go
index 844c2e4..34fe1a1 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -631,7 +631,8 @@ func (g *GemHandler) initiateHandshake() {
 }
 
 func (g *GemHandler) scheduleRetry() {
-	if !g.enabled.Load() {
+	// Communication may have been established by the other side in the meantime.
+	if !g.enabled.Load() || g.State() == CommunicationStateCommunicating {
 		return
 	}
 	g.state.setStateWithWaitDelay(CommunicationStateWaitDelay, g.establishWait, g.onWaitDelayTimeout)
-- 
2.43.0


From 40b564f07498e6bd05d6722613b75a71513b5aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 41/64] fix: end communication when the other side reconnects
 at once

A connection that was replaced between two looks at the connection state
was not noticed: the handler stayed communicating and online without
establishing communication on the new connection.
---
 gem/handler.go   | 10 ++++++++--
 hsms/protocol.go |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 34fe1a1..305d31c 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -147,6 +147,8 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 		})
 	}
 
+	handler.protocol.OnDisconnected = handler.onDisconnected
+
 	handler.protocol.SetLogger(handler.logger)
 	handler.protocol.ConfigureLogging(opts.Logging.toConfig(nil))
 
@@ -560,8 +562,7 @@ func (g *GemHandler) observe() {
 	}
 
 	if !g.protocol.Connected() {
-		g.handshakeInProgress.Store(false)
-		g.setCommunicationState(CommunicationStateNotCommunicating)
+		g.onDisconnected()
 		return
 	}
 
@@ -587,6 +588,11 @@ func (g *GemHandler) observe() {
 	}
 }
 
+func (g *GemHandler) onDisconnected() {
+	g.handshakeInProgress.Store(false)
+	g.setCommunicationState(CommunicationStateNotCommunicating)
+}
+
 func (g *GemHandler) ensureCommunicating() error {
 	if g.State() != CommunicationStateCommunicating {
 		return ErrNotCommunicating
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 3b0d57c..dce8592 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -113,6 +113,8 @@ type HsmsProtocol struct {
 	// Callbacks
 	// OnS9Error is called when an S9 error message is sent or received
 	OnS9Error func(errorInfo *S9ErrorInfo)
+	// OnDisconnected is called when a connection has ended, before the next one starts.
+	OnDisconnected func()
 }
 
 // NewHsmsProtocol creates a new HsmsProtocol instance.
@@ -828,6 +830,10 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 			p.hsmsConnection.SetSession(nil)
 		}
 
+		if p.OnDisconnected != nil {
+			p.OnDisconnected()
+		}
+
 		close(done)
 	}()
 
-- 
2.43.0


From 602e06890477ee581bec684141b2096254d8fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 42/64] fix: keep the placeholder of a duplicated SML variable
 small

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index a371875..422e0ce 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -462,7 +462,8 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 			if _, ok := p.variableNames[t.val]; ok {
 				p.errorf(t, "duplicated variable name %q", t.val)
-				if minLength > ast.MAX_BYTE_SIZE {
+				if minLength > len(p.lexer.input) {
+					// the placeholder must not be larger than the text
 					return ast.NewEmptyItemNode(), false
 				}
 				return ast.NewASCIINode(strings.Repeat("*", minLength)), true
-- 
2.43.0


From f170ee65643038b04dfcffa5e50d6d3719985cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 43/64] fix: log the separate.req sent when an active endpoint
 is disabled

---
 hsms/protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index dce8592..76567bd 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -340,6 +340,7 @@ func (p *HsmsProtocol) Disable() {
 			}
 			systemID := p.getNextSystemCounter()
 			sep := ast.NewHSMSMessageSeparateReq(uint16(p.sessionID), p.encodeSystemID(systemID))
+			p.logControlMessage("TX", sep)
 			if err := p.hsmsConnection.Send(sep.ToBytes()); err != nil {
 				p.logger.Error("send separate.req failed", "error", err)
 			}
-- 
2.43.0


From 1befcac41a2e6c43aeb582325e97e7804c92a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 44/64] fix: send separate.req before closing when an active
 endpoint is disabled

---
 hsms/protocol.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 76567bd..c822ba7 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -818,7 +818,7 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 			_ = connection.Close()
 		}
 
-		// The loop also ends without an error, when the protocol is disabled.
+		// This also happens without an error, when the protocol is disabled.
 		p.connected.Store(false)
 		p.stopLinktestTimer()
 		if p.connectionState.CurrentState() != StateNotConnected {
@@ -854,7 +854,13 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 
 	p.OnConnectionEstablished()
 
-	for p.enabled.Load() {
+	if !p.enabled.Load() {
+		return
+	}
+
+	// Disable closes the connection and so ends the loop: an active endpoint has
+	// to send separate.req before.
+	for {
 		if deadlineCodec != nil {
 			if err := deadlineCodec.SetReadDeadline(time.Now().Add(t8Duration)); err != nil {
 				p.logger.Error("set read deadline failed", "error", err)
-- 
2.43.0


From d40b939af000891a24244552afae65ef65785627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 45/64] fix: keep the configured wait after a failed attempt to
 establish communication

---
 gem/handler.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 305d31c..0151bca 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -525,16 +525,19 @@ func (g *GemHandler) initiateEstablishCommunication() {
 		resp, err := g.protocol.SendAndWait(g.buildS1F13Equipment())
 		if err != nil {
 			g.logger.Error("S1F13 request failed", "error", err)
+			g.scheduleRetry()
 			return
 		}
 		if resp == nil {
 			g.logger.Warn("S1F13 returned nil response")
+			g.scheduleRetry()
 			return
 		}
 
 		ack := readCommAck(resp)
 		if ack != 0 {
 			g.logger.Warn("S1F13 communication denied", "COMMACK", ack)
+			g.scheduleRetry()
 			return
 		}
 
@@ -566,6 +569,11 @@ func (g *GemHandler) observe() {
 		return
 	}
 
+	// The next attempt after a failed one starts when the wait has ended.
+	if g.State() == CommunicationStateWaitDelay {
+		return
+	}
+
 	if g.deviceType == DeviceHost && g.protocol.CurrentState() == hsms.StateConnectedSelected {
 		if g.State() == CommunicationStateCommunicating {
 			return
@@ -671,8 +679,13 @@ func (g *GemHandler) onWaitDelayTimeout() {
 		return
 	}
 
-	if g.deviceType == DeviceHost && g.protocol.Connected() && g.protocol.CurrentState() == hsms.StateConnectedSelected {
-		g.initiateHandshake()
+	if g.protocol.Connected() && g.protocol.CurrentState() == hsms.StateConnectedSelected {
+		if g.deviceType == DeviceHost {
+			g.initiateHandshake()
+		} else {
+			g.state.setState(CommunicationStateNotCommunicating)
+			g.initiateEstablishCommunication()
+		}
 		return
 	}
 
-- 
2.43.0


From 723e7228a878d7e1e78a2c2819d7156312b78971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 46/64] fix: do not take the acceptance of a lost connection
 for the next one

---
 gem/handler.go | 74 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 17 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 0151bca..fad9856 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -51,6 +51,11 @@ type GemHandler struct {
 	enabled             *atomic.Bool
 	handshakeInProgress *atomic.Bool
 
+	// lostConnections counts the connections that have ended, so that the outcome
+	// of an attempt to establish communication is not taken for the next connection.
+	lostMu          sync.Mutex
+	lostConnections int
+
 	events Events
 
 	waitersMu sync.Mutex
@@ -147,7 +152,7 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 		})
 	}
 
-	handler.protocol.OnDisconnected = handler.onDisconnected
+	handler.protocol.OnDisconnected = handler.onConnectionLost
 
 	handler.protocol.SetLogger(handler.logger)
 	handler.protocol.ConfigureLogging(opts.Logging.toConfig(nil))
@@ -516,32 +521,29 @@ func (g *GemHandler) initiateEstablishCommunication() {
 	}
 
 	go func() {
-		defer g.handshakeInProgress.Store(false)
-
+		connection := g.currentConnection()
 		if g.State() == CommunicationStateCommunicating {
+			g.handshakeInProgress.Store(false)
 			return
 		}
 
 		resp, err := g.protocol.SendAndWait(g.buildS1F13Equipment())
 		if err != nil {
 			g.logger.Error("S1F13 request failed", "error", err)
-			g.scheduleRetry()
+			g.endHandshake(connection, false)
 			return
 		}
 		if resp == nil {
 			g.logger.Warn("S1F13 returned nil response")
-			g.scheduleRetry()
+			g.endHandshake(connection, false)
 			return
 		}
 
 		ack := readCommAck(resp)
 		if ack != 0 {
 			g.logger.Warn("S1F13 communication denied", "COMMACK", ack)
-			g.scheduleRetry()
-			return
 		}
-
-		g.setCommunicating()
+		g.endHandshake(connection, ack == 0)
 	}()
 }
 
@@ -596,6 +598,42 @@ func (g *GemHandler) observe() {
 	}
 }
 
+func (g *GemHandler) onConnectionLost() {
+	g.lostMu.Lock()
+	g.lostConnections++
+	prev := g.state.setState(CommunicationStateNotCommunicating)
+	g.lostMu.Unlock()
+
+	g.handshakeInProgress.Store(false)
+	g.onCommunicationStateChanged(prev, CommunicationStateNotCommunicating)
+}
+
+func (g *GemHandler) currentConnection() int {
+	g.lostMu.Lock()
+	defer g.lostMu.Unlock()
+	return g.lostConnections
+}
+
+// endHandshake ends an attempt to establish communication that was made on the given
+// connection. What it brought does not concern a later connection.
+func (g *GemHandler) endHandshake(connection int, accepted bool) {
+	g.lostMu.Lock()
+	if connection != g.lostConnections {
+		g.lostMu.Unlock()
+		return
+	}
+	if !accepted {
+		g.scheduleRetry()
+		g.handshakeInProgress.Store(false)
+		g.lostMu.Unlock()
+		return
+	}
+	prev := g.state.setState(CommunicationStateCommunicating)
+	g.lostMu.Unlock()
+
+	g.communicationEstablished(prev)
+}
+
 func (g *GemHandler) onDisconnected() {
 	g.handshakeInProgress.Store(false)
 	g.setCommunicationState(CommunicationStateNotCommunicating)
@@ -618,7 +656,7 @@ func (g *GemHandler) initiateHandshake() {
 	}
 
 	go func() {
-		defer g.handshakeInProgress.Store(false)
+		connection := g.currentConnection()
 
 		waitCRA := time.Duration(g.protocol.Timeouts().T3ReplyTimeout()) * time.Second
 		if waitCRA <= 0 {
@@ -630,17 +668,15 @@ func (g *GemHandler) initiateHandshake() {
 		dataMsg, err := g.protocol.SendAndWait(g.buildS1F13())
 		if err != nil {
 			g.logger.Error("establish communication request failed", "error", err)
-			g.scheduleRetry()
+			g.endHandshake(connection, false)
 			return
 		}
 
-		if commack := readCommAck(dataMsg); commack != 0 {
+		commack := readCommAck(dataMsg)
+		if commack != 0 {
 			g.logger.Warn("establishing communication denied", "COMMACK", commack)
-			g.scheduleRetry()
-			return
 		}
-
-		g.setCommunicating()
+		g.endHandshake(connection, commack == 0)
 	}()
 }
 
@@ -653,10 +689,14 @@ func (g *GemHandler) scheduleRetry() {
 }
 
 func (g *GemHandler) setCommunicating() {
-	prev := g.state.setState(CommunicationStateCommunicating)
+	g.communicationEstablished(g.state.setState(CommunicationStateCommunicating))
+}
+
+func (g *GemHandler) communicationEstablished(prev CommunicationState) {
 	if prev != CommunicationStateCommunicating {
 		g.notifyCommunicating()
 	}
+	g.handshakeInProgress.Store(false)
 	g.onCommunicationStateChanged(prev, CommunicationStateCommunicating)
 }
 
-- 
2.43.0


From a5f2c99fb25ed7fd24087790c54ae9c35c80d4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 47/64] fix: report each change of the control state with the
 states it led from and to

---
 gem/handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gem/handler.go b/gem/handler.go
index fad9856..bbf30da 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -98,6 +98,10 @@ type GemHandler struct {
 	logger common.Logger
 
 	controlAttemptInProgress *atomic.Bool
+
+	// controlMu keeps the transitions apart, so that each is reported with the
+	// states it led from and to.
+	controlMu sync.Mutex
 }
 
 // NewGemHandler creates a GEM handler backed by the provided HSMS protocol.
@@ -393,11 +397,14 @@ func (g *GemHandler) transitionControl(transition func(sm *ControlStateMachine)
 	if g.control == nil {
 		return ErrOperationNotSupported
 	}
+	g.controlMu.Lock()
 	prev := g.control.State()
 	if err := transition(g.control); err != nil {
+		g.controlMu.Unlock()
 		return err
 	}
 	next := g.control.State()
+	g.controlMu.Unlock()
 	g.onControlStateTransition(prev, next)
 	return nil
 }
-- 
2.43.0


From 4cf6fb67c85eaa86f4c81106b9eb7a6fb2e59fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 48/64] fix: evaluate and send a collection event at the moment
 it is triggered

---
 gem/collection_event_handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 8d89652..82f3e8b 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -75,7 +75,7 @@ func (g *GemHandler) TriggerCollectionEvent(ids ...interface{}) error {
 	}
 
 	for _, key := range keys {
-		go g.sendCollectionEvent(key)
+		g.sendCollectionEvent(key)
 	}
 	return nil
 }
-- 
2.43.0


From d36de1e0344a0e6588d88493e0ef89f97eb35db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 49/64] fix: do not panic on names, units, texts and model
 names beyond ASCII

---
 gem/alarm.go                     |  2 +-
 gem/alarm_handlers.go            |  4 ++--
 gem/handler.go                   |  8 ++++----
 gem/id_utils.go                  | 12 ++++++++++++
 gem/status_equipment_handlers.go |  8 ++++----
 5 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 50d6504..9ea6b28 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -132,7 +132,7 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 	body := ast.NewListNode(
 		ast.NewBinaryNode(alcd),
 		ast.NewUintNode(alidSize, alarm.ID),
-		ast.NewASCIINode(alarm.Text),
+		ast.NewASCIINode(asciiText(alarm.Text)),
 	)
 
 	direction := "H<-E"
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 1a8a932..596efd2 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -141,7 +141,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
 			ast.NewUintNode(4, a.ID),
-			ast.NewASCIINode(a.Text),
+			ast.NewASCIINode(asciiText(a.Text)),
 		)
 	}
 
@@ -164,7 +164,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
 			ast.NewUintNode(4, a.ID),
-			ast.NewASCIINode(a.Text),
+			ast.NewASCIINode(asciiText(a.Text)),
 		)
 	}
 
diff --git a/gem/handler.go b/gem/handler.go
index bbf30da..cb42a0d 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -916,8 +916,8 @@ func (g *GemHandler) buildS1F14Equipment(commack int) *ast.DataMessage {
 	body := ast.NewListNode(
 		ast.NewBinaryNode(commack),
 		ast.NewListNode(
-			ast.NewASCIINode(g.mdln),
-			ast.NewASCIINode(g.softrev),
+			ast.NewASCIINode(asciiText(g.mdln)),
+			ast.NewASCIINode(asciiText(g.softrev)),
 		),
 	)
 	return ast.NewDataMessage("EstablishCommAck", 1, 14, 0, "H<-E", body)
@@ -929,8 +929,8 @@ func (g *GemHandler) buildS1F2Host() *ast.DataMessage {
 }
 
 func (g *GemHandler) buildS1F2Equipment() *ast.DataMessage {
-	md := ast.NewASCIINode(g.mdln)
-	sr := ast.NewASCIINode(g.softrev)
+	md := ast.NewASCIINode(asciiText(g.mdln))
+	sr := ast.NewASCIINode(asciiText(g.softrev))
 	body := ast.NewListNode(ast.NewListNode(md, sr))
 	return ast.NewDataMessage("AreYouThereAck", 1, 2, 0, "H<-E", body)
 }
diff --git a/gem/id_utils.go b/gem/id_utils.go
index 8578bf7..ef89253 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -3,6 +3,7 @@ package gem
 import (
 	"fmt"
 	"math"
+	"strings"
 	"unicode"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -128,6 +129,17 @@ func keyForRawID(id interface{}) (string, error) {
 	}
 }
 
+// asciiText returns descriptive text as it is sent: characters that an ASCII
+// item cannot hold are replaced by question marks.
+func asciiText(text string) string {
+	return strings.Map(func(ch rune) rune {
+		if ch > unicode.MaxASCII {
+			return '?'
+		}
+		return ch
+	}, text)
+}
+
 type idRequest struct {
 	info idInfo
 	ok   bool
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index 4ddb7dd..1c73370 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -180,8 +180,8 @@ func safeStatusValue(variable *StatusVariable, logger common.Logger) ast.ItemNod
 func buildStatusInfoNode(variable *StatusVariable) ast.ItemNode {
 	return ast.NewListNode(
 		variable.idNode(),
-		ast.NewASCIINode(variable.Name),
-		ast.NewASCIINode(variable.Unit),
+		ast.NewASCIINode(asciiText(variable.Name)),
+		ast.NewASCIINode(asciiText(variable.Unit)),
 	)
 }
 
@@ -270,11 +270,11 @@ func buildEquipmentConstantInfoNode(constant *EquipmentConstant) ast.ItemNode {
 
 	return ast.NewListNode(
 		constant.idNode(),
-		ast.NewASCIINode(constant.Name),
+		ast.NewASCIINode(asciiText(constant.Name)),
 		minNode,
 		maxNode,
 		defNode,
-		ast.NewASCIINode(constant.Unit),
+		ast.NewASCIINode(asciiText(constant.Unit)),
 	)
 }
 
-- 
2.43.0


From b77e8e2ff3e9e33e0d6a91c2c2085045abd2738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 50/64] fix: do not panic on process programs and acknowledge
 codes that cannot be sent

---
 gem/process_program_handlers.go  |  4 ++++
 gem/status_equipment_messages.go | 23 +++++++++++++----------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index e0d1cbf..d20cf71 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -110,6 +110,10 @@ func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	ack := 0
 	if g.processRequestHandler != nil {
 		body, ack = g.processRequestHandler(ppidInfo.raw)
+		if _, err := newProcessProgram(ppidInfo.raw, body); err != nil && ack == 0 {
+			g.logger.Error("process program cannot be sent", "ppid", ppidInfo.raw, "error", err)
+			ack = 1
+		}
 	} else {
 		if program, ok := g.processStore.get(ppidInfo.key); ok {
 			body = program.Body
diff --git a/gem/status_equipment_messages.go b/gem/status_equipment_messages.go
index 55e4683..5833186 100644
--- a/gem/status_equipment_messages.go
+++ b/gem/status_equipment_messages.go
@@ -215,7 +215,7 @@ func (g *GemHandler) buildS7F3(ppid idInfo, programBody string) *ast.DataMessage
 
 func (g *GemHandler) buildS7F4(ack int) *ast.DataMessage {
 	//body := ast.NewListNode(ast.NewBinaryNode(ack))
-	body := ast.NewBinaryNode(ack)
+	body := ast.NewBinaryNode(ackByte(ack))
 	return ast.NewDataMessage("ProcessProgramAcknowledge", 7, 4, 0, "H<-E", body)
 }
 
@@ -223,6 +223,15 @@ func (g *GemHandler) buildS7F5(ppid idInfo) *ast.DataMessage {
 	return ast.NewDataMessage("ProcessProgramRequest", 7, 5, 1, "H->E", ppid.node)
 }
 
+// ackByte returns an acknowledge code of the application as it is sent: codes
+// that one byte cannot hold become 255.
+func ackByte(ack int) int {
+	if ack < 0 || ack > 255 {
+		return 255
+	}
+	return ack
+}
+
 // --- S7F6: ProcessProgramData ---
 // 按标准: <PPID><PPBODY><ACKC7>
 func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *ast.DataMessage {
@@ -230,17 +239,11 @@ func (g *GemHandler) buildS7F6(ppid ast.ItemNode, programBody string, ack int) *
 	if ppidNode == nil {
 		ppidNode = ast.NewEmptyItemNode()
 	}
-	bodyNode := ast.NewASCIINode(programBody)
 	if ack != 0 {
-		bodyNode = ast.NewASCIINode("")
-	}
-	if ack < 0 {
-		ack = 0
+		programBody = ""
 	}
-	if ack > 255 {
-		ack = 255
-	}
-	ackNode := ast.NewBinaryNode(fmt.Sprintf("0b%b", ack))
+	bodyNode := ast.NewASCIINode(programBody)
+	ackNode := ast.NewBinaryNode(ackByte(ack))
 	payload := ast.NewListNode(ppidNode, bodyNode, ackNode)
 	return ast.NewDataMessage("ProcessProgramData", 7, 6, 0, "H<-E", payload)
 }
-- 
2.43.0


From b88f7de481c13294ef0c51b157fdd2a4b83a3051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 51/64] fix: return an error for texts beyond ASCII instead of
 panicking

---
 gem/id_utils.go                | 15 +++++++++++----
 gem/process_programs.go        |  7 ++-----
 gem/remote_command.go          |  3 +++
 gem/status_equipment_client.go |  6 +++++-
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/gem/id_utils.go b/gem/id_utils.go
index ef89253..726f9e4 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -53,10 +53,8 @@ func newIDInfo(value interface{}) (idInfo, error) {
 		}
 		return newIDInfoFromUint(uint64(v))
 	case string:
-		for _, ch := range v {
-			if ch > unicode.MaxASCII {
-				return idInfo{}, fmt.Errorf("non-ASCII identifier %q not supported", v)
-			}
+		if !isASCII(v) {
+			return idInfo{}, fmt.Errorf("non-ASCII identifier %q not supported", v)
 		}
 		return idInfo{raw: v, node: ast.NewASCIINode(v), key: fmt.Sprintf("S:%s", v)}, nil
 	default:
@@ -129,6 +127,15 @@ func keyForRawID(id interface{}) (string, error) {
 	}
 }
 
+func isASCII(text string) bool {
+	for _, ch := range text {
+		if ch > unicode.MaxASCII {
+			return false
+		}
+	}
+	return true
+}
+
 // asciiText returns descriptive text as it is sent: characters that an ASCII
 // item cannot hold are replaced by question marks.
 func asciiText(text string) string {
diff --git a/gem/process_programs.go b/gem/process_programs.go
index 08c6aa1..2fd57ef 100644
--- a/gem/process_programs.go
+++ b/gem/process_programs.go
@@ -3,7 +3,6 @@ package gem
 import (
 	"fmt"
 	"sync"
-	"unicode"
 
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
 )
@@ -27,10 +26,8 @@ func newProcessProgram(id interface{}, body string) (*ProcessProgram, error) {
 	if err != nil {
 		return nil, err
 	}
-	for _, ch := range body {
-		if ch > unicode.MaxASCII {
-			return nil, fmt.Errorf("non-ASCII body of process program %v not supported", id)
-		}
+	if !isASCII(body) {
+		return nil, fmt.Errorf("non-ASCII body of process program %v not supported", id)
 	}
 	return &ProcessProgram{info: info, Body: body}, nil
 }
diff --git a/gem/remote_command.go b/gem/remote_command.go
index fae4198..1472997 100644
--- a/gem/remote_command.go
+++ b/gem/remote_command.go
@@ -267,6 +267,9 @@ func itemNodeFromValue(value interface{}) (ast.ItemNode, error) {
 	case ast.ItemNode:
 		return v, nil
 	case string:
+		if !isASCII(v) {
+			return nil, errors.New("gem: non-ASCII text not supported")
+		}
 		return ast.NewASCIINode(v), nil
 	case []byte:
 		ints := make([]interface{}, len(v))
diff --git a/gem/status_equipment_client.go b/gem/status_equipment_client.go
index 5c23552..385e22c 100644
--- a/gem/status_equipment_client.go
+++ b/gem/status_equipment_client.go
@@ -267,6 +267,10 @@ func (g *GemHandler) UploadProcessProgram(ppid interface{}, body string) (int, e
 		return -1, err
 	}
 
+	if !isASCII(body) {
+		return -1, fmt.Errorf("gem: non-ASCII body of process program %v not supported", ppid)
+	}
+
 	resp, err := g.protocol.SendAndWait(g.buildS7F3(info, body))
 	if err != nil {
 		return -1, err
@@ -682,7 +686,7 @@ func (g *GemHandler) SetDateTime(timeStr string) (byte, error) {
 		return 0, err
 	}
 
-	if len(timeStr) < 14 {
+	if len(timeStr) < 14 || !isASCII(timeStr) {
 		return 0, fmt.Errorf("gem: invalid time format (need YYYYMMDDhhmmss00)")
 	}
 
-- 
2.43.0


From 1b884643a0ac90db826dbc737a2b8b3321bc389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 52/64] fix: refuse remote commands with parameters that cannot
 be read instead of dropping them

---
 gem/remote_command.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gem/remote_command.go b/gem/remote_command.go
index 1472997..738f46e 100644
--- a/gem/remote_command.go
+++ b/gem/remote_command.go
@@ -147,28 +147,28 @@ func parseRemoteCommand(msg *ast.DataMessage) (RemoteCommandRequest, error) {
 
 	list, ok := paramsNode.(*ast.ListNode)
 	if !ok {
-		return req, nil
+		return RemoteCommandRequest{}, fmt.Errorf("gem: parameters are not a list but %T", paramsNode)
 	}
 
 	for i := 0; i < list.Size(); i++ {
 		entryNode, err := list.Get(i)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: parameter %d: %w", i, err)
 		}
 
 		entry, ok := entryNode.(*ast.ListNode)
 		if !ok || entry.Size() == 0 {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: parameter %d is not a pair of CPNAME and CPVAL", i)
 		}
 
 		nameNode, err := entry.Get(0)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: parameter %d: %w", i, err)
 		}
 
 		nameInfo, err := newIDInfoFromNode(nameNode)
 		if err != nil {
-			continue
+			return RemoteCommandRequest{}, fmt.Errorf("gem: invalid CPNAME of parameter %d: %w", i, err)
 		}
 
 		value := ast.NewEmptyItemNode()
-- 
2.43.0


From 5702a9bfda34a920906f1f2186e6e864da0fec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 53/64] fix: read the time to set in the time zone in which the
 equipment reports its time

---
 gem/clock.go          | 10 ++++++++++
 gem/clock_handlers.go |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/gem/clock.go b/gem/clock.go
index f9cf584..566e5d8 100644
--- a/gem/clock.go
+++ b/gem/clock.go
@@ -67,6 +67,16 @@ func (c *ClockManager) GetFormattedTime() string {
 	return t.Format("20060102150405") + "00"
 }
 
+// parseTime parses a SEMI E5 format time string as a time of the equipment, in
+// the time zone of GetFormattedTime.
+func (c *ClockManager) parseTime(timeStr string) (time.Time, error) {
+	t, err := ParseSEMITime(timeStr)
+	if err != nil {
+		return time.Time{}, err
+	}
+	return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, c.GetTime().Location()), nil
+}
+
 // ParseSEMITime parses a SEMI E5 format time string ("YYYYMMDDhhmmss00").
 func ParseSEMITime(timeStr string) (time.Time, error) {
 	if len(timeStr) < 14 {
diff --git a/gem/clock_handlers.go b/gem/clock_handlers.go
index 3761ad5..4bde845 100644
--- a/gem/clock_handlers.go
+++ b/gem/clock_handlers.go
@@ -40,7 +40,7 @@ func (g *GemHandler) onS2F31(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 
 	// Parse SEMI time format
-	requestedTime, err := ParseSEMITime(timeStr)
+	requestedTime, err := g.clockManager.parseTime(timeStr)
 	if err != nil {
 		return g.buildS2F32(1), nil
 	}
-- 
2.43.0


From dbaa70e2b579c8ca71d27db5581f64afaee7ba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 54/64] fix: do not panic on alarm identifiers beyond 32 bits
 and do not take unreadable ones for 0

---
 gem/alarm.go          | 46 +++++++++++++++++++++++++++++--------------
 gem/alarm_client.go   | 20 ++++++-------------
 gem/alarm_handlers.go | 19 ++++--------------
 3 files changed, 41 insertions(+), 44 deletions(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 9ea6b28..a25bd5b 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -32,8 +32,13 @@ type AlarmInfo struct {
 }
 
 // RegisterAlarm registers an alarm definition on the equipment.
-// Alarms are enabled by default.
+// Alarms are enabled by default. Negative identifiers cannot be sent and are refused.
 func (g *GemHandler) RegisterAlarm(alarm Alarm) {
+	if alarm.ID < 0 {
+		g.logger.Error("alarm refused: negative identifier", "id", alarm.ID)
+		return
+	}
+
 	g.alarmMu.Lock()
 	defer g.alarmMu.Unlock()
 
@@ -126,7 +131,7 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 
 	alidSize := 2
 	if alarm.ID > math.MaxUint16 {
-		alidSize = 4
+		alidSize = alarmIDSize(alarm.ID)
 	}
 
 	body := ast.NewListNode(
@@ -143,11 +148,32 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 	return ast.NewDataMessage("AlarmReport", 5, 1, 0, direction, body)
 }
 
+// alarmIDSize returns the number of bytes of the item holding an alarm identifier.
+func alarmIDSize(id int) int {
+	if uint64(id) > math.MaxUint32 {
+		return 8
+	}
+	return 4
+}
+
 func (g *GemHandler) buildS5F2(ack int) *ast.DataMessage {
 	body := ast.NewListNode(ast.NewBinaryNode(ack))
 	return ast.NewDataMessage("AlarmAck", 5, 2, 0, "H->E", body)
 }
 
+// readAlarmID returns the alarm identifier held by a numeric item.
+func readAlarmID(node ast.ItemNode) (int, error) {
+	info, err := newIDInfoFromNode(node)
+	if err != nil {
+		return 0, err
+	}
+	id, ok := info.raw.(uint64)
+	if !ok || id > math.MaxInt {
+		return 0, fmt.Errorf("unsupported ALID %v", info.raw)
+	}
+	return int(id), nil
+}
+
 func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 	var event AlarmEvent
 
@@ -169,19 +195,9 @@ func parseAlarmMessage(msg *ast.DataMessage) (AlarmEvent, error) {
 	if err != nil {
 		return event, fmt.Errorf("gem: malformed S5F1 ALID: %w", err)
 	}
-	switch typed := alidNode.(type) {
-	case *ast.UintNode:
-		values, _ := typed.Values().([]uint64)
-		if len(values) > 0 {
-			event.ID = int(values[0])
-		}
-	case *ast.IntNode:
-		values, _ := typed.Values().([]int64)
-		if len(values) > 0 {
-			event.ID = int(values[0])
-		}
-	default:
-		return event, fmt.Errorf("gem: unsupported ALID type %T", alidNode)
+	event.ID, err = readAlarmID(alidNode)
+	if err != nil {
+		return event, fmt.Errorf("gem: malformed S5F1 ALID: %w", err)
 	}
 
 	altxNode, err := msg.Get(2)
diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index 371c936..42125a0 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -21,7 +21,10 @@ func (h *GemHandler) SendEnableAlarm(alarmIDs []int, enable bool) (byte, error)
 	// Build ALID list
 	alidItems := make([]interface{}, len(alarmIDs))
 	for i, id := range alarmIDs {
-		alidItems[i] = ast.NewUintNode(4, id)
+		if id < 0 {
+			return 0, fmt.Errorf("gem: negative alarm identifier %d not supported", id)
+		}
+		alidItems[i] = ast.NewUintNode(alarmIDSize(id), id)
 	}
 
 	// ALED: 128=Enable, 0=Disable
@@ -128,19 +131,8 @@ func parseAlarmListResponse(msg *ast.DataMessage) ([]AlarmInfo, error) {
 		if err != nil {
 			continue
 		}
-		var alid int
-		switch typed := alidNode.(type) {
-		case *ast.UintNode:
-			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				alid = int(values[0])
-			}
-		case *ast.IntNode:
-			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				alid = int(values[0])
-			}
-		default:
+		alid, err := readAlarmID(alidNode)
+		if err != nil {
 			continue
 		}
 
diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 596efd2..86d9e3a 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -48,19 +48,8 @@ func (g *GemHandler) onS5F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 			continue
 		}
 
-		var id int
-		switch typed := alidNode.(type) {
-		case *ast.UintNode:
-			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				id = int(values[0])
-			}
-		case *ast.IntNode:
-			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				id = int(values[0])
-			}
-		default:
+		id, err := readAlarmID(alidNode)
+		if err != nil {
 			return g.buildS5F4(1), nil
 		}
 
@@ -140,7 +129,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			ast.NewUintNode(alarmIDSize(a.ID), a.ID),
 			ast.NewASCIINode(asciiText(a.Text)),
 		)
 	}
@@ -163,7 +152,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 
 		items[i] = ast.NewListNode(
 			ast.NewBinaryNode(alcd),
-			ast.NewUintNode(4, a.ID),
+			ast.NewUintNode(alarmIDSize(a.ID), a.ID),
 			ast.NewASCIINode(asciiText(a.Text)),
 		)
 	}
-- 
2.43.0


From fd05577edd8b097ae6e27e2a2f5390bc47d9a7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 55/64] fix: do not let the answer to an earlier S1F1 decide a
 later attempt to go online

---
 gem/handler.go | 74 +++++++++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index cb42a0d..6a7e1e5 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -97,7 +97,11 @@ type GemHandler struct {
 
 	logger common.Logger
 
-	controlAttemptInProgress *atomic.Bool
+	// controlAttempt numbers the attempts to go online, so that what a request of
+	// an earlier attempt ends with does not decide a later one; attemptStarted is
+	// the last one whose request was sent. Both are guarded by controlMu.
+	controlAttempt uint64
+	attemptStarted uint64
 
 	// controlMu keeps the transitions apart, so that each is reported with the
 	// states it led from and to.
@@ -134,17 +138,17 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 			ControlStateChanged:   &common.Event{},
 			S9ErrorReceived:       &common.Event{},
 		},
-		alarms:                   make(map[int]Alarm),
-		statusVars:               make(map[string]*StatusVariable),
-		equipmentConstants:       make(map[string]*EquipmentConstant),
-		dataVars:                 make(map[string]*DataVariable),
-		collectionEvents:         make(map[string]*CollectionEvent),
-		reports:                  make(map[string]*ReportDefinition),
-		eventLinks:               make(map[string]*collectionEventLink),
-		processStore:             newProcessProgramStore(),
-		clockManager:             NewClockManager(),
-		logger:                   resolveLogger(opts.Logger),
-		controlAttemptInProgress: atomic.NewBool(false),
+		alarms:             make(map[int]Alarm),
+		statusVars:         make(map[string]*StatusVariable),
+		equipmentConstants: make(map[string]*EquipmentConstant),
+		dataVars:           make(map[string]*DataVariable),
+		collectionEvents:   make(map[string]*CollectionEvent),
+		reports:            make(map[string]*ReportDefinition),
+		eventLinks:         make(map[string]*collectionEventLink),
+		processStore:       newProcessProgramStore(),
+		clockManager:       NewClockManager(),
+		logger:             resolveLogger(opts.Logger),
+		controlAttempt:     1,
 	}
 
 	handler.setCommunicationState(CommunicationStateNotCommunicating)
@@ -404,6 +408,9 @@ func (g *GemHandler) transitionControl(transition func(sm *ControlStateMachine)
 		return err
 	}
 	next := g.control.State()
+	if prev != ControlStateAttemptOnline && next == ControlStateAttemptOnline {
+		g.controlAttempt++
+	}
 	g.controlMu.Unlock()
 	g.onControlStateTransition(prev, next)
 	return nil
@@ -413,9 +420,6 @@ func (g *GemHandler) onControlStateTransition(prev, next ControlState) {
 	if prev == next {
 		return
 	}
-	if prev == ControlStateAttemptOnline && next != ControlStateAttemptOnline {
-		g.controlAttemptInProgress.Store(false)
-	}
 	if g.events.ControlStateChanged != nil {
 		payload := map[string]interface{}{
 			"handler":  g,
@@ -474,31 +478,37 @@ func (g *GemHandler) initiateAttemptOnline() {
 	if g.control == nil {
 		return
 	}
-	if !g.controlAttemptInProgress.CompareAndSwap(false, true) {
-		return
-	}
-
 	go func() {
-		defer g.controlAttemptInProgress.Store(false)
-
-		if g.ControlState() != ControlStateAttemptOnline {
+		g.controlMu.Lock()
+		attempt := g.controlAttempt
+		start := g.control.State() == ControlStateAttemptOnline && g.attemptStarted != attempt
+		if start {
+			g.attemptStarted = attempt
+		}
+		g.controlMu.Unlock()
+		if !start {
 			return
 		}
 
-		if g.State() != CommunicationStateCommunicating {
-			g.logger.Warn("attempt online while not communicating")
+		finish := func(transition func(sm *ControlStateMachine) error) {
 			_ = g.transitionControl(func(sm *ControlStateMachine) error {
-				return sm.AttemptOnlineFailHostOffline()
+				if g.controlAttempt != attempt {
+					return ErrInvalidControlTransition
+				}
+				return transition(sm)
 			})
+		}
+
+		if g.State() != CommunicationStateCommunicating {
+			g.logger.Warn("attempt online while not communicating")
+			finish((*ControlStateMachine).AttemptOnlineFailHostOffline)
 			return
 		}
 
 		resp, err := g.protocol.SendAndWait(g.buildS1F1())
 		if err != nil {
 			g.logger.Error("S1F1 request failed", "error", err)
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
-				return sm.AttemptOnlineFailHostOffline()
-			})
+			finish((*ControlStateMachine).AttemptOnlineFailHostOffline)
 			return
 		}
 		if resp == nil || resp.StreamCode() != 1 || resp.FunctionCode() != 2 {
@@ -507,15 +517,11 @@ func (g *GemHandler) initiateAttemptOnline() {
 			} else {
 				g.logger.Warn("unexpected nil response to S1F1")
 			}
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
-				return sm.AttemptOnlineFailHostOffline()
-			})
+			finish((*ControlStateMachine).AttemptOnlineFailHostOffline)
 			return
 		}
 
-		_ = g.transitionControl(func(sm *ControlStateMachine) error {
-			return sm.AttemptOnlineSuccess()
-		})
+		finish((*ControlStateMachine).AttemptOnlineSuccess)
 	}()
 }
 
-- 
2.43.0


From f1d2aa80639d80f31d7658cbfe9b4a5fececeecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 56/64] fix: guard the process program handlers against
 concurrent replacement

SetProcessProgramUploadHandler and SetProcessProgramRequestHandler wrote a field
that the receive loop reads, without synchronization: a data race, and a handler
that was removed between the check and the call made the process panic.
---
 gem/handler.go                  |  1 +
 gem/process_program_handlers.go | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 6a7e1e5..75bdeaf 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -89,6 +89,7 @@ type GemHandler struct {
 	processStore          *processProgramStore
 	processUploadHandler  ProcessProgramUploadHandler
 	processRequestHandler ProcessProgramRequestHandler
+	processMu             sync.RWMutex
 
 	remoteMu             sync.RWMutex
 	remoteCommandHandler RemoteCommandHandler
diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index d20cf71..796b820 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -31,12 +31,16 @@ func (g *GemHandler) ListProcessPrograms() []ProcessProgram {
 
 // SetProcessProgramUploadHandler registers a callback invoked when the host uploads a process program (S7F3).
 func (g *GemHandler) SetProcessProgramUploadHandler(handler ProcessProgramUploadHandler) {
+	g.processMu.Lock()
 	g.processUploadHandler = handler
+	g.processMu.Unlock()
 }
 
 // SetProcessProgramRequestHandler registers a callback used to serve S7F5 requests.
 func (g *GemHandler) SetProcessProgramRequestHandler(handler ProcessProgramRequestHandler) {
+	g.processMu.Lock()
 	g.processRequestHandler = handler
+	g.processMu.Unlock()
 }
 
 func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
@@ -65,8 +69,11 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	}
 
 	ack := 0
-	if g.processUploadHandler != nil {
-		ack = g.processUploadHandler(ppidInfo.raw, body)
+	g.processMu.RLock()
+	handler := g.processUploadHandler
+	g.processMu.RUnlock()
+	if handler != nil {
+		ack = handler(ppidInfo.raw, body)
 	}
 	if ack == 0 {
 		program, err := newProcessProgram(ppidInfo.raw, body)
@@ -108,8 +115,11 @@ func (g *GemHandler) onS7F5(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	body := ""
 	ack := 0
-	if g.processRequestHandler != nil {
-		body, ack = g.processRequestHandler(ppidInfo.raw)
+	g.processMu.RLock()
+	handler := g.processRequestHandler
+	g.processMu.RUnlock()
+	if handler != nil {
+		body, ack = handler(ppidInfo.raw)
 		if _, err := newProcessProgram(ppidInfo.raw, body); err != nil && ack == 0 {
 			g.logger.Error("process program cannot be sent", "ppid", ppidInfo.raw, "error", err)
 			ack = 1
-- 
2.43.0


From 0afad9cadbbd68cb55798fd4be3571acd4e0f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 57/64] fix: call value providers, validators and updaters
 without holding locks

S1F3, S2F13 and S2F15 called the code of the user with the lock of the variables or
constants held: code that registered a variable or constant blocked the receive
loop for ever, and code that triggered an event did so when another goroutine
registered a variable meanwhile.
---
 gem/status_equipment_handlers.go | 98 ++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 36 deletions(-)

diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index 1c73370..e8c2dca 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -108,32 +108,43 @@ func (g *GemHandler) onS2F29(msg *ast.DataMessage) (*ast.DataMessage, error) {
 }
 
 func (g *GemHandler) resolveStatusValues(requests []idRequest) []ast.ItemNode {
+	variables := g.findStatusVariables(requests)
+
+	// Value providers may use the handler: no lock is held here.
+	values := make([]ast.ItemNode, 0, len(variables))
+	for _, variable := range variables {
+		if variable == nil {
+			values = append(values, ast.NewEmptyItemNode())
+			continue
+		}
+		values = append(values, safeStatusValue(variable, g.logger))
+	}
+	return values
+}
+
+// findStatusVariables returns the requested variables, nil for an unknown one, or
+// all variables without requests.
+func (g *GemHandler) findStatusVariables(requests []idRequest) []*StatusVariable {
 	g.statusMu.RLock()
 	defer g.statusMu.RUnlock()
 
 	if len(requests) == 0 {
-		values := make([]ast.ItemNode, 0, len(g.statusOrder))
+		variables := make([]*StatusVariable, 0, len(g.statusOrder))
 		for _, key := range g.statusOrder {
 			if variable, ok := g.statusVars[key]; ok {
-				values = append(values, safeStatusValue(variable, g.logger))
+				variables = append(variables, variable)
 			}
 		}
-		return values
+		return variables
 	}
 
-	values := make([]ast.ItemNode, 0, len(requests))
-	for _, req := range requests {
-		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
-			continue
-		}
-		if variable, ok := g.statusVars[req.info.key]; ok {
-			values = append(values, safeStatusValue(variable, g.logger))
-		} else {
-			values = append(values, ast.NewEmptyItemNode())
+	variables := make([]*StatusVariable, len(requests))
+	for i, req := range requests {
+		if req.ok {
+			variables[i] = g.statusVars[req.info.key]
 		}
 	}
-	return values
+	return variables
 }
 
 func (g *GemHandler) resolveStatusInfo(requests []idRequest) []ast.ItemNode {
@@ -186,32 +197,43 @@ func buildStatusInfoNode(variable *StatusVariable) ast.ItemNode {
 }
 
 func (g *GemHandler) resolveEquipmentConstantValues(requests []idRequest) []ast.ItemNode {
+	constants := g.findEquipmentConstants(requests)
+
+	// Value providers may use the handler: no lock is held here.
+	values := make([]ast.ItemNode, 0, len(constants))
+	for _, constant := range constants {
+		if constant == nil {
+			values = append(values, ast.NewEmptyItemNode())
+			continue
+		}
+		values = append(values, safeEquipmentConstantValue(constant, g.logger))
+	}
+	return values
+}
+
+// findEquipmentConstants returns the requested constants, nil for an unknown one, or
+// all constants without requests.
+func (g *GemHandler) findEquipmentConstants(requests []idRequest) []*EquipmentConstant {
 	g.ecMu.RLock()
 	defer g.ecMu.RUnlock()
 
 	if len(requests) == 0 {
-		values := make([]ast.ItemNode, 0, len(g.ecOrder))
+		constants := make([]*EquipmentConstant, 0, len(g.ecOrder))
 		for _, key := range g.ecOrder {
 			if constant, ok := g.equipmentConstants[key]; ok {
-				values = append(values, safeEquipmentConstantValue(constant, g.logger))
+				constants = append(constants, constant)
 			}
 		}
-		return values
+		return constants
 	}
 
-	values := make([]ast.ItemNode, 0, len(requests))
-	for _, req := range requests {
-		if !req.ok {
-			values = append(values, ast.NewEmptyItemNode())
-			continue
-		}
-		if constant, ok := g.equipmentConstants[req.info.key]; ok {
-			values = append(values, safeEquipmentConstantValue(constant, g.logger))
-		} else {
-			values = append(values, ast.NewEmptyItemNode())
+	constants := make([]*EquipmentConstant, len(requests))
+	for i, req := range requests {
+		if req.ok {
+			constants[i] = g.equipmentConstants[req.info.key]
 		}
 	}
-	return values
+	return constants
 }
 
 func (g *GemHandler) resolveEquipmentConstantInfo(requests []idRequest) []ast.ItemNode {
@@ -381,28 +403,32 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 		return ECACKAccepted
 	}
 
-	g.ecMu.RLock()
-	defer g.ecMu.RUnlock()
+	requests := make([]idRequest, len(updates))
+	for i, upd := range updates {
+		requests[i] = idRequest{info: upd.id, ok: upd.ok}
+	}
+	// Validators and updaters may use the handler: no lock is held while they run.
+	constants := g.findEquipmentConstants(requests)
 
-	for _, upd := range updates {
+	for i, upd := range updates {
 		if !upd.ok {
 			return ECACKInvalidData
 		}
-		if _, ok := g.equipmentConstants[upd.id.key]; !ok {
+		if constants[i] == nil {
 			return ECACKDoesNotExist
 		}
 	}
 
-	for _, upd := range updates {
-		constant := g.equipmentConstants[upd.id.key]
+	for i, upd := range updates {
+		constant := constants[i]
 		if err := constant.validate(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
 		}
 	}
 
-	for _, upd := range updates {
-		constant := g.equipmentConstants[upd.id.key]
+	for i, upd := range updates {
+		constant := constants[i]
 		if err := constant.applyValidated(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
 			return ECACKValidationError
-- 
2.43.0


From a26a1969c238ed095c22c09f2b539feb1937b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 58/64] fix: close the connection when Dial cannot make a codec
 for it

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index 76ca8ba..bec83c2 100644
--- a/api.go
+++ b/api.go
@@ -48,6 +48,7 @@ func Dial(network, address string, protocol Protocol, sendChanSize int) (*Sessio
 	}
 	codec, err := protocol.NewCodec(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return NewSession(codec, sendChanSize), nil
@@ -60,6 +61,7 @@ func DialTimeout(network, address string, timeout time.Duration, protocol Protoc
 	}
 	codec, err := protocol.NewCodec(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return NewSession(codec, sendChanSize), nil
-- 
2.43.0


From 5bca3f07a033bc45e3593d5cc5e27efa21ef654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 59/64] fix: a linktest interval of 0 turns linktests off
 instead of crashing the process

---
 hsms/protocol.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index c822ba7..c33f8fd 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -163,7 +163,11 @@ func (p *HsmsProtocol) newLinktestStop() chan struct{} {
 }
 
 func (p *HsmsProtocol) startLinktestTimer(stop chan struct{}) {
-	ticker := time.NewTicker(time.Duration(p.timeouts.Linktest()) * time.Second)
+	interval := p.timeouts.Linktest()
+	if interval <= 0 {
+		return
+	}
+	ticker := time.NewTicker(time.Duration(interval) * time.Second)
 	defer ticker.Stop()
 
 	for {
-- 
2.43.0


From 5fe609610f06ea1d90b73e6e6e03722935b19ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:16 +0000
Subject: [PATCH 60/64] fix: an ASCII item with an open variable had no type,
 so that GetInt and GetFloat panicked on it

---
 lib-secs2-hsms-go/pkg/ast/ascii.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib-secs2-hsms-go/pkg/ast/ascii.go b/lib-secs2-hsms-go/pkg/ast/ascii.go
index c50fad2..9510c77 100644
--- a/lib-secs2-hsms-go/pkg/ast/ascii.go
+++ b/lib-secs2-hsms-go/pkg/ast/ascii.go
@@ -78,6 +78,7 @@ func NewASCIINodeVariable(name string, minLength, maxLength int) ItemNode {
 	node := &ASCIINode{
 		variable: asciiNodeVariable{name, minLength, maxLength},
 		isValue:  false,
+		symbol:   "ascii",
 	}
 	node.checkRep()
 	return node
-- 
2.43.0


From 8391d1a91ef0aaa4413e3d43706511918d749741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 61/64] fix: sending nil through the JSON codec panicked

---
 codec/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codec/json.go b/codec/json.go
index 4e9498c..30aba7a 100644
--- a/codec/json.go
+++ b/codec/json.go
@@ -88,6 +88,9 @@ func (c *jsonCodec) Receive() (interface{}, error) {
 }
 
 func (c *jsonCodec) Send(msg interface{}) error {
+	if msg == nil {
+		return ErrMsgFormat
+	}
 	var out jsonOut
 	t := reflect.TypeOf(msg)
 	if t.Kind() == reflect.Ptr {
-- 
2.43.0


From e43c944832571ced80ad9e43d2705dea9c8ed8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 62/64] fix: a message with open variables was accepted for
 sending, and reported with S9F9 after T3, although nothing was sent

---
 hsms/protocol.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index c33f8fd..2f65919 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -644,6 +644,11 @@ func (p *HsmsProtocol) invokeHandler(handler DataMessageHandler, msg *ast.DataMe
 		response = response.SetWaitBit(false)
 	}
 
+	if err := ensureFilled(response); err != nil {
+		p.logger.Error("send response failed", "stream", response.StreamCode(), "function", response.FunctionCode(), "error", err)
+		return
+	}
+
 	p.logDataMessage("OUT", response)
 
 	if err := p.hsmsConnection.Send(response.ToBytes()); err != nil {
@@ -959,11 +964,22 @@ func (p *HsmsProtocol) ensureReady(requireSelected bool) error {
 	return nil
 }
 
+// ensureFilled refuses a message with open variables, which has no HSMS representation.
+func ensureFilled(message *ast.DataMessage) error {
+	if open := message.Variables(); len(open) > 0 {
+		return fmt.Errorf("hsms: message has unfilled variables %v", open)
+	}
+	return nil
+}
+
 // SendDataMessage sends a SECS-II data message without waiting for the reply.
 func (p *HsmsProtocol) SendDataMessage(message *ast.DataMessage) error {
 	if message == nil {
 		return errors.New("hsms: nil message")
 	}
+	if err := ensureFilled(message); err != nil {
+		return err
+	}
 	if err := p.ensureReady(true); err != nil {
 		return err
 	}
@@ -984,6 +1000,9 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 	if message == nil {
 		return nil, errors.New("hsms: nil message")
 	}
+	if err := ensureFilled(message); err != nil {
+		return nil, err
+	}
 	if err := p.ensureReady(true); err != nil {
 		return nil, err
 	}
@@ -1029,6 +1048,9 @@ func (p *HsmsProtocol) SendResponse(message *ast.DataMessage, systemBytes []byte
 	if message == nil {
 		return errors.New("hsms: nil message")
 	}
+	if err := ensureFilled(message); err != nil {
+		return err
+	}
 	if err := p.ensureReady(true); err != nil {
 		return err
 	}
-- 
2.43.0


From 58826b7ecbc28f7754132af5737b513a386a9a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:31 +0000
Subject: [PATCH 63/64] fix: hand out copies of the values and system bytes of
 items and messages, which are immutable

---
 lib-secs2-hsms-go/pkg/ast/ast.go     | 10 +++++-----
 lib-secs2-hsms-go/pkg/ast/binary.go  |  2 +-
 lib-secs2-hsms-go/pkg/ast/boolean.go |  2 +-
 lib-secs2-hsms-go/pkg/ast/float.go   |  2 +-
 lib-secs2-hsms-go/pkg/ast/hsms.go    |  2 +-
 lib-secs2-hsms-go/pkg/ast/int.go     |  2 +-
 lib-secs2-hsms-go/pkg/ast/list.go    |  2 +-
 lib-secs2-hsms-go/pkg/ast/uint.go    |  2 +-
 8 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ast.go b/lib-secs2-hsms-go/pkg/ast/ast.go
index 743615d..33bd0ef 100644
--- a/lib-secs2-hsms-go/pkg/ast/ast.go
+++ b/lib-secs2-hsms-go/pkg/ast/ast.go
@@ -197,7 +197,7 @@ func (node *DataMessage) SessionID() int {
 // SystemBytes returns the system bytes of the SECS-II message.
 // If the system bytes was not set, it will return []byte{0, 0, 0, 0}.
 func (node *DataMessage) SystemBytes() []byte {
-	return node.systemBytes
+	return append([]byte{}, node.systemBytes...)
 }
 
 // SetSessionIDAndSystemBytes sets session id and system bytes to the message.
@@ -271,7 +271,7 @@ func (node *DataMessage) GetByte(indices ...int) (byte, error) {
 	}
 
 	if itemNode.Type() == "binary" {
-		ints := itemNode.Values().([]int)
+		ints := itemNode.(*BinaryNode).values
 		return byte(ints[indices[len(indices)-1]]), nil
 	} else {
 		return 0, fmt.Errorf("is %s, not binary", itemNode.Type())
@@ -287,7 +287,7 @@ func (node *DataMessage) GetBoolean(indices ...int) (bool, error) {
 	}
 
 	if itemNode.Type() == "boolean" {
-		data := itemNode.Values().([]bool)
+		data := itemNode.(*BooleanNode).values
 		return data[indices[len(indices)-1]], nil
 	} else {
 		return false, fmt.Errorf("is %s, not boolean", itemNode.Type())
@@ -303,7 +303,7 @@ func (node *DataMessage) GetFloat(indices ...int) (float64, error) {
 	}
 
 	if itemNode.Type()[:1] == "f" {
-		data := itemNode.Values().([]float64)
+		data := itemNode.(*FloatNode).values
 		return data[indices[len(indices)-1]], nil
 	} else {
 		return 0, fmt.Errorf("is %s, not float", itemNode.Type())
@@ -321,7 +321,7 @@ func (node *DataMessage) GetInt(indices ...int) (int64, error) {
 
 	if itemNode.Type()[:1] == "i" {
 		// direct get
-		ints := itemNode.Values().([]int64)
+		ints := itemNode.(*IntNode).values
 		return ints[indices[len(indices)-1]], nil
 	} else {
 		return 0, fmt.Errorf("is %s, not int", itemNode.Type())
diff --git a/lib-secs2-hsms-go/pkg/ast/binary.go b/lib-secs2-hsms-go/pkg/ast/binary.go
index 1bdaf5f..6e9c57a 100644
--- a/lib-secs2-hsms-go/pkg/ast/binary.go
+++ b/lib-secs2-hsms-go/pkg/ast/binary.go
@@ -21,7 +21,7 @@ type BinaryNode struct {
 }
 
 func (node *BinaryNode) Values() interface{} {
-	return node.values
+	return append([]int{}, node.values...)
 }
 
 func (node *BinaryNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/boolean.go b/lib-secs2-hsms-go/pkg/ast/boolean.go
index 938a9ef..3224574 100644
--- a/lib-secs2-hsms-go/pkg/ast/boolean.go
+++ b/lib-secs2-hsms-go/pkg/ast/boolean.go
@@ -19,7 +19,7 @@ type BooleanNode struct {
 }
 
 func (node *BooleanNode) Values() interface{} {
-	return node.values
+	return append([]bool{}, node.values...)
 }
 
 func (node *BooleanNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/float.go b/lib-secs2-hsms-go/pkg/ast/float.go
index f79b563..a5bfe03 100644
--- a/lib-secs2-hsms-go/pkg/ast/float.go
+++ b/lib-secs2-hsms-go/pkg/ast/float.go
@@ -29,7 +29,7 @@ type FloatNode struct {
 }
 
 func (node *FloatNode) Values() interface{} {
-	return node.values
+	return append([]float64{}, node.values...)
 }
 
 func (node *FloatNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index 85ed83d..0015600 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -272,7 +272,7 @@ func (msg *ControlMessage) ToBytes() []byte {
 }
 
 func (msg *ControlMessage) SystemBytes() []byte {
-	return msg.header[6:10]
+	return append([]byte{}, msg.header[6:10]...)
 }
 
 // SessionID returns the session identifier encoded in the control message header.
diff --git a/lib-secs2-hsms-go/pkg/ast/int.go b/lib-secs2-hsms-go/pkg/ast/int.go
index 2b00def..872fb7c 100644
--- a/lib-secs2-hsms-go/pkg/ast/int.go
+++ b/lib-secs2-hsms-go/pkg/ast/int.go
@@ -95,7 +95,7 @@ func (node *IntNode) Get(indices ...int) (ItemNode, error) {
 }
 
 func (node *IntNode) Values() interface{} {
-	return node.values
+	return append([]int64{}, node.values...)
 }
 
 func (node *IntNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/list.go b/lib-secs2-hsms-go/pkg/ast/list.go
index b7bd1e5..da98a36 100644
--- a/lib-secs2-hsms-go/pkg/ast/list.go
+++ b/lib-secs2-hsms-go/pkg/ast/list.go
@@ -51,7 +51,7 @@ type ListNode struct {
 }
 
 func (node *ListNode) Values() interface{} {
-	return node.values
+	return append([]ItemNode{}, node.values...)
 }
 
 func (node *ListNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/uint.go b/lib-secs2-hsms-go/pkg/ast/uint.go
index fde0867..f9c78ba 100644
--- a/lib-secs2-hsms-go/pkg/ast/uint.go
+++ b/lib-secs2-hsms-go/pkg/ast/uint.go
@@ -22,7 +22,7 @@ type UintNode struct {
 }
 
 func (node *UintNode) Values() interface{} {
-	return node.values
+	return append([]uint64{}, node.values...)
 }
 
 func (node *UintNode) Type() string {
-- 
2.43.0


From 7a765c1f8b4632bd027dd5499ec61598d00f0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:08 +0000
Subject: [PATCH 64/64] fix: report a collection event from the definitions of
 one moment

---
 gem/collection_event_handlers.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 82f3e8b..d10dac0 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -110,18 +110,17 @@ func (g *GemHandler) buildCollectionEventPayload(key string) ([]ast.ItemNode, in
 		g.reportMu.RUnlock()
 		return nil, 0, nil, nil
 	}
-	reportKeys := append([]string{}, link.reports...)
-	g.reportMu.RUnlock()
-
-	reportNodes := make([]ast.ItemNode, 0, len(reportKeys))
-	for _, rptKey := range reportKeys {
-		g.reportMu.RLock()
-		report, exists := g.reports[rptKey]
-		g.reportMu.RUnlock()
-		if !exists {
-			continue
+	// The definitions of one moment: they may change while the values are collected.
+	reports := make([]*ReportDefinition, 0, len(link.reports))
+	for _, rptKey := range link.reports {
+		if report, exists := g.reports[rptKey]; exists {
+			reports = append(reports, report)
 		}
+	}
+	g.reportMu.RUnlock()
 
+	reportNodes := make([]ast.ItemNode, 0, len(reports))
+	for _, report := range reports {
 		values := g.collectReportValues(report)
 		reportNodes = append(reportNodes, ast.NewListNode(report.idNode(), ast.NewListNode(values...)))
 	}
-- 
2.43.0

