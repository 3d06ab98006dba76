From 7157b066674dd693fbc804e9f3d797255b54fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 01/29] fix: index array properties instead of failing or
 panicking, each record once

---
 pkg/index/map.go      | 15 ++++++++++++---
 pkg/index/wildcard.go |  4 +++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index cc626a4..f9ee440 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -82,8 +82,8 @@ func (mapIndex *Map) reindex() error {
 				value = reflect.ValueOf(value).Interface()
 			}
 
-			if err := mapIndex.addValueToIndex(index, property, value, record.Position()); err != nil {
-				return fmt.Errorf("Cannot index the property '%v': ", property)
+			if err := mapIndex.addValueToIndex(index, property, value, record.Position(), make(map[interface{}]bool)); err != nil {
+				return fmt.Errorf("Cannot index the property '%v': %w", property, err)
 			}
 		}
 	}
@@ -99,19 +99,28 @@ func (mapIndex *Map) addValueToIndex(
 	property string,
 	value interface{},
 	position record.Position,
+	indexedValues map[interface{}]bool,
 ) error {
 	if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
 		for _, valueArrayValue := range valueArray {
-			if err := mapIndex.addValueToIndex(index, property, valueArrayValue, position); err != nil {
+			if err := mapIndex.addValueToIndex(index, property, valueArrayValue, position, indexedValues); err != nil {
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	if _, valueIsMap := value.(map[string]interface{}); valueIsMap {
 		return errors.New("Indexing objects is not supported")
 	}
 
+	// The same value may be found several times in a single array
+	if indexedValues[value] {
+		return nil
+	}
+	indexedValues[value] = true
+
 	propertyIndex := index[property]
 	valueIndexes, valueIndexesExists := propertyIndex[value]
 	if valueIndexesExists {
diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index acf7f23..0c6178e 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -119,7 +119,7 @@ func (wildcard *Wildcard) createIndex() error {
 			}
 
 			if err := wildcard.addValueToIndex(index, property, value, record.Position()); err != nil {
-				return fmt.Errorf("Cannot index the property '%v': ", property)
+				return fmt.Errorf("Cannot index the property '%v': %w", property, err)
 			}
 		}
 	}
@@ -199,6 +199,8 @@ func (wildcard *Wildcard) addValueToIndex(
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	stringValue, valueIsString := value.(string)
-- 
2.43.0


From c99b898bf31f221f74f8a54002cdf93a7103fdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 02/29] fix: do not panic when filtering on an array or object
 value

---
 pkg/index/map.go  | 6 ++++++
 pkg/index/noop.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index f9ee440..4d191da 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -155,6 +155,12 @@ func (mapIndex *Map) GetRecordPositions(
 			return record.EmptyIterator, nil
 		}
 
+		switch filter.(type) {
+		case []interface{}, map[string]interface{}:
+			// Those types are never indexed and cannot be used as a map key
+			return record.EmptyIterator, nil
+		}
+
 		indexedResults, foundIndexedResults := indexedValues[filter]
 		if !foundIndexedResults {
 			return record.EmptyIterator, nil
diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 564c1df..89cd11d 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -70,7 +70,7 @@ func (noop *Noop) GetRecordPositions(
 				}
 
 				value = reflect.ValueOf(value).Interface()
-				if value != filter {
+				if !reflect.DeepEqual(value, filter) {
 					matches = false
 					break
 				}
-- 
2.43.0


From 026577a39c166e7b9ef4bd977df316d127809bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 03/29] fix: write a wildcard index completely before marking
 it as completed

---
 pkg/index/wildcard.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 0c6178e..9f3243d 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -124,6 +124,15 @@ func (wildcard *Wildcard) createIndex() error {
 		}
 	}
 
+	// The whole index must be on the disk before it gets marked as completed,
+	// otherwise a crash could leave a partial index that looks complete
+	if err := indexStream.Flush(); err != nil {
+		return err
+	}
+	if err := indexFile.Sync(); err != nil {
+		return err
+	}
+
 	metadata.SetCompleted(true)
 	if err := metadata.Save(); err != nil {
 		return err
@@ -132,6 +141,9 @@ func (wildcard *Wildcard) createIndex() error {
 	if err := indexStream.Flush(); err != nil {
 		return err
 	}
+	if err := indexFile.Sync(); err != nil {
+		return err
+	}
 
 	wildcard.index = index
 
-- 
2.43.0


From 602408e2b82880b79d5e67ecb16decfae2c717f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 04/29] fix: release the sqlite rows and report the errors that
 end them

---
 pkg/index/fts5.go   | 26 ++++++++++++++------------
 pkg/index/sqlite.go | 26 ++++++++++++++------------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 58b71b8..08ec1a5 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -244,20 +244,22 @@ func (sqlite *Fts5) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
+	// Reading all the positions now, because the connection used by
+	// those rows would not be released if the caller stopped early
+	defer rows.Close()
+	positions := make(record.PositionList, 0)
+	for rows.Next() {
+		var position record.Position
+		if err := rows.Scan(&position); err != nil {
+			return nil, err
 		}
+		positions = append(positions, position)
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
-		return nil, nil
-	}, nil
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Fts5) Close() error {
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 99990fc..8741c84 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -254,20 +254,22 @@ func (sqlite *Sqlite) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
+	// Reading all the positions now, because the connection used by
+	// those rows would not be released if the caller stopped early
+	defer rows.Close()
+	positions := make(record.PositionList, 0)
+	for rows.Next() {
+		var position record.Position
+		if err := rows.Scan(&position); err != nil {
+			return nil, err
 		}
+		positions = append(positions, position)
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
-		return nil, nil
-	}, nil
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Sqlite) Close() error {
-- 
2.43.0


From d7a12add8fe7931bd8cd8c6d495d54bbb3df5efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 05/29] fix: decode each text value with its own decoder

---
 pkg/parser/string.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index 99d6f92..07df64d 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"fmt"
 	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/ianaindex"
 	"golang.org/x/text/transform"
@@ -9,27 +10,29 @@ import (
 )
 
 type String struct {
-	config  *StringConfig
-	decoder *encoding.Decoder
+	config   *StringConfig
+	encoding encoding.Encoding
 }
 
 func NewString(
 	config *StringConfig,
 ) (*String, error) {
-	var decoder *encoding.Decoder = nil
+	str := &String{
+		config: config,
+	}
 	if config.ConvertFromCharset != "" {
 		encoding, err := ianaindex.MIME.Encoding(config.ConvertFromCharset)
 		if err != nil {
 			return nil, err
 		}
+		if encoding == nil {
+			return nil, fmt.Errorf("The charset '%v' is not supported.", config.ConvertFromCharset)
+		}
 
-		decoder = encoding.NewDecoder()
+		str.encoding = encoding
 	}
 
-	return &String{
-		config:  config,
-		decoder: decoder,
-	}, nil
+	return str, nil
 }
 
 func (str *String) Name() string {
@@ -46,7 +49,8 @@ func (str *String) GetRegexpPattern() string {
 
 func (str *String) Parse(value string) (interface{}, error) {
 	if str.config.ConvertFromCharset != "" {
-		rInUTF8 := transform.NewReader(strings.NewReader(value), str.decoder)
+		// A decoder has a state, so it cannot be shared between values
+		rInUTF8 := transform.NewReader(strings.NewReader(value), str.encoding.NewDecoder())
 		convertedValue, err := ioutil.ReadAll(rInUTF8)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 56fe77d3d8aa99b43ecccf98551e9714255f9a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 06/29] fix: close the data file when an iteration cannot
 begin, accept an empty csv file with a header

---
 pkg/input/csv.go | 3 ++-
 pkg/input/xml.go | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index 3e92cf3..d68b6d8 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -183,7 +183,8 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 
 	if csvInput.config.IgnoreFirstRow {
 		_, err = csvReader.Read()
-		if err != nil {
+		if err != nil && err != io.EOF && !errors.Is(err, csv.ErrFieldCount) {
+			_ = file.Close()
 			return nil, nil, err
 		}
 	}
diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 2141dd7..a7989ae 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -140,6 +140,7 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 		xmlInput.config.RecordXPath,
 	)
 	if err != nil {
+		_ = file.Close()
 		return nil, nil, err
 	}
 
-- 
2.43.0


From ef293512f3809512356ed09dd784f89ad5a4c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 07/29] fix: a failed read of a json file is not the end of its
 records

---
 pkg/input/json.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/input/json.go b/pkg/input/json.go
index 58e1fa2..aee0837 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -128,15 +128,21 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 
 	iterator := func() (record.Record, error) {
 		if !jsonDecoder.More() {
-			return nil, nil
+			// Either the end of the file, a failed read, or an unexpected delimiter
+			token, err := jsonDecoder.Token()
+			if err == io.EOF {
+				return nil, nil
+			} else if err != nil {
+				return nil, fmt.Errorf("Cannot read json data: %w", err)
+			}
+
+			return nil, fmt.Errorf("Cannot read json data: unexpected token '%v'", token)
 		}
 
 		position := jsonDecoder.InputOffset()
 
 		var data map[string]interface{}
-		if err := jsonDecoder.Decode(&data); err == io.EOF {
-			return nil, nil
-		} else if err != nil {
+		if err := jsonDecoder.Decode(&data); err != nil {
 			return nil, fmt.Errorf("Cannot read json data: %w", err)
 		}
 
-- 
2.43.0


From aeff7338fe6611feaffd536bbe91469d82ff6694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 08/29] fix: do not leave the data file open when a search
 without index stops early

---
 pkg/index/noop.go | 125 ++++++++++++++++++++++++++++++----------------
 1 file changed, 83 insertions(+), 42 deletions(-)

diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 89cd11d..547da66 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -7,6 +7,8 @@ import (
 	"reflect"
 )
 
+const noopFirstBatchSize = 32
+
 // A noop index is able to search into any data,
 // but very inefficiently. It does not index anything.
 type Noop struct {
@@ -32,63 +34,102 @@ func (noop *Noop) GetRecordPositions(
 	input input.Input,
 	filters map[string]interface{},
 ) (record.PositionIterator, error) {
-	inputIterator, end, err := input.IterateAll()
-	if err != nil {
-		return nil, err
-	}
-
-	closed := false
+	// The caller may stop at any position without notice, so the resources of the
+	// input cannot be kept until the end. Reading the records by batches instead,
+	// with an increasing size because each one has to skip the previous ones.
+	batchSize := noopFirstBatchSize
+	readRecords := 0
+	ended := false
+	nextPositions := record.EmptyIterator
 
 	return func() (*record.Position, error) {
 		for {
-			if closed {
-				return nil, nil
+			position, err := nextPositions()
+			if err != nil || position != nil || ended {
+				return position, err
 			}
 
-			record, err := inputIterator()
+			var positions record.PositionList
+			positions, readRecords, ended, err = noop.getBatch(input, filters, readRecords, batchSize)
 			if err != nil {
+				ended = true
 				return nil, err
 			}
-			if record == nil {
-				break
-			}
+			batchSize *= 2
+			nextPositions = positions.Iterate()
+		}
+	}, nil
+}
 
-			matches := true
-			for propertyName, filter := range filters {
-				value, err := record.Get(propertyName)
-				if err != nil {
-					return nil, err
-				}
-
-				if value == nil {
-					if filter == nil {
-						continue
-					} else {
-						matches = false
-						break
-					}
-				}
-
-				value = reflect.ValueOf(value).Interface()
-				if !reflect.DeepEqual(value, filter) {
-					matches = false
-					break
-				}
-			}
+// Gets the positions matching the filters, skipping the given number of records,
+// and stopping (when there is at least one position) after reading batchSize records
+func (noop *Noop) getBatch(
+	input input.Input,
+	filters map[string]interface{},
+	skippedRecords int,
+	batchSize int,
+) (positions record.PositionList, readRecords int, ended bool, err error) {
+	inputIterator, end, err := input.IterateAll()
+	if err != nil {
+		return nil, 0, false, err
+	}
+	defer func() {
+		if endErr := end(); endErr != nil && err == nil {
+			err = fmt.Errorf("Error while closing input iterator: %w", endErr)
+		}
+	}()
 
-			if matches {
-				position := record.Position()
-				return &position, nil
+	for len(positions) == 0 || readRecords < skippedRecords+batchSize {
+		record, err := inputIterator()
+		if err == nil && record == nil {
+			return positions, readRecords, true, nil
+		}
+
+		matches := false
+		if err == nil && readRecords >= skippedRecords {
+			matches, err = noop.matches(record, filters)
+		}
+		if err != nil && len(positions) > 0 {
+			// Only matters to a caller that gets there: the next batch begins with it
+			return positions, readRecords, false, nil
+		} else if err != nil {
+			return nil, 0, false, err
+		}
+
+		readRecords++
+		if matches {
+			positions = append(positions, record.Position())
+		}
+	}
+
+	return positions, readRecords, false, nil
+}
+
+func (noop *Noop) matches(
+	record record.Record,
+	filters map[string]interface{},
+) (bool, error) {
+	for propertyName, filter := range filters {
+		value, err := record.Get(propertyName)
+		if err != nil {
+			return false, err
+		}
+
+		if value == nil {
+			if filter == nil {
+				continue
+			} else {
+				return false, nil
 			}
 		}
 
-		closed = true
-		if err := end(); err != nil {
-			return nil, fmt.Errorf("Error while closing input iterator: %w", err)
+		value = reflect.ValueOf(value).Interface()
+		if !reflect.DeepEqual(value, filter) {
+			return false, nil
 		}
+	}
 
-		return nil, nil
-	}, nil
+	return true, nil
 }
 
 func (noop *Noop) Close() error {
-- 
2.43.0


From 9816d052958d9fa26430e3b3d1f2bff18cc6c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 09/29] fix: read each xml record with its own parser

---
 pkg/input/xml.go | 89 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 75 insertions(+), 14 deletions(-)

diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index a7989ae..250d5ff 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -11,6 +11,8 @@ import (
 	"github.com/rodb-io/rodb/pkg/util"
 	"io"
 	"os"
+	"regexp"
+	"strings"
 	"sync"
 	"time"
 )
@@ -21,13 +23,16 @@ var xmlParserOptions = xmlquery.ParserOptions{
 	},
 }
 
+// Matches the record xpaths made only of element names, like '/root/item' or '//item'.
+// The first sub-match contains the parents of the record (only if the path is absolute)
+var xmlSimpleRecordXPath = regexp.MustCompile("^(?:((?:/[\\pL_][\\pL\\d_-]*)*)/|//)[\\pL_][\\pL\\d_-]*$")
+
 type Xml struct {
 	config       *XmlConfig
 	reader       io.ReadSeeker
 	readerBuffer *bufio.Reader
 	readerLock   sync.Mutex
 	xmlFile      *os.File
-	xmlParser    *xmlquery.StreamParser
 	parsers      parser.List
 	watcher      *fsnotify.Watcher
 }
@@ -69,15 +74,6 @@ func NewXml(
 	xmlInput.reader = io.ReadSeeker(file)
 	xmlInput.readerBuffer = bufio.NewReader(xmlInput.reader)
 
-	xmlInput.xmlParser, err = xmlquery.CreateStreamParserWithOptions(
-		xmlInput.readerBuffer,
-		xmlParserOptions,
-		xmlInput.config.RecordXPath,
-	)
-	if err != nil {
-		return nil, err
-	}
-
 	if err := xmlInput.watcher.Add(config.Path); err != nil {
 		return nil, err
 	}
@@ -93,11 +89,12 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 	xmlInput.readerLock.Lock()
 	defer xmlInput.readerLock.Unlock()
 
-	if err := util.SetBufferedReaderOffset(xmlInput.reader, xmlInput.readerBuffer, position); err != nil {
-		return nil, err
+	// A parser cannot be shared between several records, because
+	// it's state depends on everything that has been read before
+	node, err := xmlInput.getNodeFromPosition(position)
+	if err != nil {
+		node, err = xmlInput.getNodeFromBeginning(position)
 	}
-
-	node, err := xmlInput.xmlParser.Read()
 	if err == io.EOF {
 		return nil, fmt.Errorf("Did not find an XML record at position %v", position)
 	} else if err != nil {
@@ -107,6 +104,70 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 	return NewXmlRecord(xmlInput.config, node, xmlInput.parsers, position)
 }
 
+// Reads a record directly from it's position. This is only able to handle
+// the records which can be recognized without the context of the document
+func (xmlInput *Xml) getNodeFromPosition(position record.Position) (*xmlquery.Node, error) {
+	path := xmlSimpleRecordXPath.FindStringSubmatch(xmlInput.config.RecordXPath)
+	if path == nil {
+		return nil, fmt.Errorf("The xpath '%v' requires the context of the document", xmlInput.config.RecordXPath)
+	}
+
+	if _, err := xmlInput.reader.Seek(position, io.SeekStart); err != nil {
+		return nil, err
+	}
+
+	// The position of any record but the first one is the end of a previous
+	// record, so the elements containing it are the ones of an absolute path
+	context := ""
+	if position > 0 && path[1] != "" {
+		for _, parent := range strings.Split(path[1], "/")[1:] {
+			context += "<" + parent + ">"
+		}
+	}
+
+	xmlParser, err := xmlquery.CreateStreamParserWithOptions(
+		io.MultiReader(strings.NewReader(context), xmlInput.reader),
+		xmlParserOptions,
+		xmlInput.config.RecordXPath,
+	)
+	if err != nil {
+		return nil, err
+	}
+
+	return xmlParser.Read()
+}
+
+// Reads all the records up to the requested position
+func (xmlInput *Xml) getNodeFromBeginning(position record.Position) (*xmlquery.Node, error) {
+	if err := util.SetBufferedReaderOffset(xmlInput.reader, xmlInput.readerBuffer, 0); err != nil {
+		return nil, err
+	}
+
+	xmlParser, err := xmlquery.CreateStreamParserWithOptions(
+		xmlInput.readerBuffer,
+		xmlParserOptions,
+		xmlInput.config.RecordXPath,
+	)
+	if err != nil {
+		return nil, err
+	}
+
+	for {
+		currentPosition, err := util.GetBufferedReaderOffset(xmlInput.reader, xmlInput.readerBuffer)
+		if err != nil {
+			return nil, err
+		}
+
+		node, err := xmlParser.Read()
+		if err != nil {
+			return nil, err
+		}
+		if currentPosition == position {
+			return node, nil
+		}
+	}
+}
+
 func (xmlInput *Xml) Size() (int64, error) {
 	fileInfo, err := os.Stat(xmlInput.config.Path)
 	if err != nil {
-- 
2.43.0


From fd15ccbb486eb08f22ae99fdaaa950e3cbfde96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 10/29] fix: let the requests in progress finish at shutdown

---
 pkg/service/http.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 020f6b3..78f4c08 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -311,6 +311,19 @@ func (service *Http) Wait() error {
 }
 
 func (service *Http) Close() error {
+	// Serve returns as soon as the shutdown begins, but the
+	// requests in progress must be able to finish
+	service.waitGroup.Add(1)
+	err := service.shutdown()
+	service.waitGroup.Done()
+	if err != nil {
+		return err
+	}
+
+	return service.Wait()
+}
+
+func (service *Http) shutdown() error {
 	if service.config.Http != nil {
 		if err := service.httpServer.Shutdown(context.Background()); err != nil {
 			return err
@@ -323,5 +336,5 @@ func (service *Http) Close() error {
 		}
 	}
 
-	return service.Wait()
+	return nil
 }
-- 
2.43.0


From 9dd12be7fdcf997d86e89b90f1d34fa6bcfeeb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 11/29] fix: send an error when the data cannot be encoded to
 json

---
 pkg/output/json_array.go  |  3 +--
 pkg/output/json_common.go | 19 +++++++++++++++++++
 pkg/output/json_object.go |  3 +--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 5614835..d4c1535 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -1,7 +1,6 @@
 package output
 
 import (
-	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
@@ -132,7 +131,7 @@ func (jsonArray *JsonArray) Handle(
 		rowsData = append(rowsData, rowData)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(rowsData)
+	return sendJson(rowsData, sendError, sendSucces)
 }
 
 func (jsonArray *JsonArray) getLimit(params map[string]string) (uint, error) {
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index c787548..9880f90 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -1,12 +1,15 @@
 package output
 
 import (
+	"bytes"
+	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	relationshipPackage "github.com/rodb-io/rodb/pkg/output/relationship"
+	"io"
 )
 
 func checkRelationshipMatches(
@@ -231,3 +234,19 @@ func getDataFromPosition(
 
 	return data, nil
 }
+
+// Some values (NaN for example) cannot be encoded, which
+// must be known before anything is sent as a success
+func sendJson(
+	data interface{},
+	sendError func(err error) error,
+	sendSucces func() io.Writer,
+) error {
+	buffer := &bytes.Buffer{}
+	if err := json.NewEncoder(buffer).Encode(data); err != nil {
+		return sendError(err)
+	}
+
+	_, err := buffer.WriteTo(sendSucces())
+	return err
+}
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 8b9f15d..2bd4071 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -1,7 +1,6 @@
 package output
 
 import (
-	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
@@ -115,7 +114,7 @@ func (jsonObject *JsonObject) Handle(
 		return sendError(err)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(data)
+	return sendJson(data, sendError, sendSucces)
 }
 
 func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
-- 
2.43.0


From 64a046ee3d72af5479b1a1d26c9ebab94a397722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 12/29] fix: match each relationship with the data of the
 record

---
 pkg/output/json_common.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index 9880f90..93c24ce 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -99,9 +99,16 @@ func loadRelationships(
 	inputs inputPackage.List,
 	rootInput string,
 ) (map[string]interface{}, error) {
+	// The name of a relationship may be the one of a property, which
+	// still has to be available to match the other relationships
+	recordData := make(map[string]interface{}, len(data))
+	for property, value := range data {
+		recordData[property] = value
+	}
+
 	for relationshipName, relationshipConfig := range relationships {
 		filtersPerIndex, err := getRelationshipFiltersPerIndex(
-			data,
+			recordData,
 			relationshipConfig.Match,
 			relationshipName,
 		)
-- 
2.43.0


From 15719e845b8d38b48c57058067724d2c253ef945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 13/29] fix: get each path parameter from its own group

---
 pkg/parser/boolean.go | 2 +-
 pkg/parser/float.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/boolean.go b/pkg/parser/boolean.go
index 6951e17..5d31351 100644
--- a/pkg/parser/boolean.go
+++ b/pkg/parser/boolean.go
@@ -35,7 +35,7 @@ func (boolean *Boolean) GetRegexpPattern() string {
 	for _, value := range boolean.config.FalseValues {
 		values = append(values, regexp.QuoteMeta(value))
 	}
-	return "(" + strings.Join(values, "|") + ")"
+	return "(?:" + strings.Join(values, "|") + ")"
 }
 
 func (boolean *Boolean) Parse(value string) (interface{}, error) {
diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index 1ca2846..ed12867 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -34,7 +34,7 @@ func (float *Float) GetRegexpPattern() string {
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
 	}
-	return ignoreBegin + "[-]?[0-9" + ignore + "]+([" + separator + "][0-9" + ignore + "]+)?"
+	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:[" + separator + "][0-9" + ignore + "]+)?"
 }
 
 func (float *Float) Parse(value string) (interface{}, error) {
-- 
2.43.0


From 8e0dc6c8f8273f0fb872e4101b5d616cf6234d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 14/29] fix: do not evaluate the same xpath concurrently

---
 pkg/input/xml_config.go | 14 ++++++++++++++
 pkg/input/xml_record.go |  8 ++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index ef4be62..8cf3b00 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -3,10 +3,12 @@ package input
 import (
 	"errors"
 	"fmt"
+	"github.com/antchfx/xmlquery"
 	"github.com/antchfx/xpath"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
+	"sync"
 )
 
 type XmlInputPropertyType string
@@ -35,6 +37,7 @@ type XmlPropertyConfig struct {
 	Items         *XmlPropertyConfig   `yaml:"items"`
 	Properties    []*XmlPropertyConfig `yaml:"properties"`
 	CompiledXPath *xpath.Expr
+	xpathLock     sync.Mutex
 }
 
 func (config *XmlConfig) GetName() string {
@@ -178,3 +181,14 @@ func (config *XmlPropertyConfig) Validate(
 
 	return nil
 }
+
+// Evaluating a compiled xpath changes it's internal state, so
+// it must not be done by several requests at the same time
+func (config *XmlPropertyConfig) evaluateXPath(node *xmlquery.Node) interface{} {
+	config.xpathLock.Lock()
+	defer config.xpathLock.Unlock()
+
+	return config.CompiledXPath.Evaluate(
+		xmlquery.CreateXPathNavigator(node),
+	)
+}
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 2f98b20..9ad8294 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -98,9 +98,7 @@ func (record *XmlRecord) getAllValues(
 		return record.nodeIteratorToObject(nodes, currentConfig)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := currentConfig.evaluateXPath(node)
 
 	if currentConfig.Type != XmlInputPropertyTypePrimitive {
 		return nil, record.xpathError(currentConfig, fmt.Sprintf("got a primitive value, but the property does not have a primitive type"))
@@ -275,9 +273,7 @@ func (record *XmlRecord) getSubValue(
 		return record.getSubObjectValue(nodes, currentConfig, path)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := currentConfig.evaluateXPath(node)
 
 	// From here, we only have to handle the primitive types returned by the xpath
 
-- 
2.43.0


From f6f3ee90ebfcf0c65651e6f36c01f1b7f6b2a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 15/29] fix: handle the parameters, filters and relationships
 in a constant order

---
 pkg/index/map.go          |  3 ++-
 pkg/index/noop.go         |  8 ++++++--
 pkg/index/sqlite.go       |  3 ++-
 pkg/index/wildcard.go     |  3 ++-
 pkg/output/json_array.go  |  4 +++-
 pkg/output/json_common.go |  7 +++++--
 pkg/output/json_object.go |  4 +++-
 pkg/util/utils.go         | 15 +++++++++++++++
 8 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index 4d191da..51c7828 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -145,7 +145,8 @@ func (mapIndex *Map) GetRecordPositions(
 	}
 
 	individualFiltersResults := make([]record.PositionIterator, 0, len(filters))
-	for propertyName, filter := range filters {
+	for _, propertyName := range util.SortedKeys(filters) {
+		filter := filters[propertyName]
 		if !mapIndex.config.DoesHandleProperty(propertyName) {
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
 		}
diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 547da66..629519f 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/input"
 	"github.com/rodb-io/rodb/pkg/input/record"
+	"github.com/rodb-io/rodb/pkg/util"
 	"reflect"
 )
 
@@ -69,6 +70,7 @@ func (noop *Noop) getBatch(
 	skippedRecords int,
 	batchSize int,
 ) (positions record.PositionList, readRecords int, ended bool, err error) {
+	propertyNames := util.SortedKeys(filters)
 	inputIterator, end, err := input.IterateAll()
 	if err != nil {
 		return nil, 0, false, err
@@ -87,7 +89,7 @@ func (noop *Noop) getBatch(
 
 		matches := false
 		if err == nil && readRecords >= skippedRecords {
-			matches, err = noop.matches(record, filters)
+			matches, err = noop.matches(record, filters, propertyNames)
 		}
 		if err != nil && len(positions) > 0 {
 			// Only matters to a caller that gets there: the next batch begins with it
@@ -108,8 +110,10 @@ func (noop *Noop) getBatch(
 func (noop *Noop) matches(
 	record record.Record,
 	filters map[string]interface{},
+	propertyNames []string,
 ) (bool, error) {
-	for propertyName, filter := range filters {
+	for _, propertyName := range propertyNames {
+		filter := filters[propertyName]
 		value, err := record.Get(propertyName)
 		if err != nil {
 			return false, err
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 8741c84..1293396 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -231,7 +231,8 @@ func (sqlite *Sqlite) GetRecordPositions(
 
 	clauses := make([]string, 0, len(filters))
 	values := make([]interface{}, 0, len(filters))
-	for propertyName, filter := range filters {
+	for _, propertyName := range util.SortedKeys(filters) {
+		filter := filters[propertyName]
 		if !sqlite.config.DoesHandleProperty(propertyName) {
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
 		}
diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 9f3243d..4a43efb 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -246,7 +246,8 @@ func (wildcard *Wildcard) GetRecordPositions(
 	}
 
 	individualFiltersResults := make([]record.PositionIterator, 0, len(filters))
-	for propertyName, filter := range filters {
+	for _, propertyName := range util.SortedKeys(filters) {
+		filter := filters[propertyName]
 		if !wildcard.config.DoesHandleProperty(propertyName) {
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
 		}
diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index d4c1535..2556c1c 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -7,6 +7,7 @@ import (
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	parserPackage "github.com/rodb-io/rodb/pkg/parser"
+	"github.com/rodb-io/rodb/pkg/util"
 	"io"
 	"strconv"
 )
@@ -171,7 +172,8 @@ func (jsonArray *JsonArray) getOffset(params map[string]string) (uint, error) {
 
 func (jsonArray *JsonArray) getFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
 	filtersPerIndex := make(map[string]map[string]interface{})
-	for paramName, paramConfig := range jsonArray.config.Parameters {
+	for _, paramName := range util.SortedKeys(jsonArray.config.Parameters) {
+		paramConfig := jsonArray.config.Parameters[paramName]
 		paramValue, paramExists := params[paramName]
 		if !paramExists {
 			continue
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index 93c24ce..009a1ee 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -9,6 +9,7 @@ import (
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	relationshipPackage "github.com/rodb-io/rodb/pkg/output/relationship"
+	"github.com/rodb-io/rodb/pkg/util"
 	"io"
 )
 
@@ -74,7 +75,8 @@ func getFilteredRecordPositionsPerIndex(
 	}
 
 	iterators := make([]recordPackage.PositionIterator, 0, len(filtersPerIndex))
-	for indexName, filters := range filtersPerIndex {
+	for _, indexName := range util.SortedKeys(filtersPerIndex) {
+		filters := filtersPerIndex[indexName]
 		index, indexExists := indexes[indexName]
 		if !indexExists {
 			return nil, fmt.Errorf("Index '%v' not found in indexes list.", indexName)
@@ -106,7 +108,8 @@ func loadRelationships(
 		recordData[property] = value
 	}
 
-	for relationshipName, relationshipConfig := range relationships {
+	for _, relationshipName := range util.SortedKeys(relationships) {
+		relationshipConfig := relationships[relationshipName]
 		filtersPerIndex, err := getRelationshipFiltersPerIndex(
 			recordData,
 			relationshipConfig.Match,
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 2bd4071..5ccdab8 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -7,6 +7,7 @@ import (
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	parserPackage "github.com/rodb-io/rodb/pkg/parser"
+	"github.com/rodb-io/rodb/pkg/util"
 	"io"
 )
 
@@ -119,7 +120,8 @@ func (jsonObject *JsonObject) Handle(
 
 func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
 	filtersPerIndex := map[string]map[string]interface{}{}
-	for paramName, param := range jsonObject.config.Parameters {
+	for _, paramName := range util.SortedKeys(jsonObject.config.Parameters) {
+		param := jsonObject.config.Parameters[paramName]
 		indexFilters, indexFiltersExists := filtersPerIndex[param.Index]
 		if !indexFiltersExists {
 			indexFilters = make(map[string]interface{})
diff --git a/pkg/util/utils.go b/pkg/util/utils.go
index c297829..4ff22d0 100644
--- a/pkg/util/utils.go
+++ b/pkg/util/utils.go
@@ -2,6 +2,8 @@ package util
 
 import (
 	"net"
+	"reflect"
+	"sort"
 	"strings"
 )
 
@@ -36,3 +38,16 @@ func GetAddress(address net.Addr) string {
 
 	return result
 }
+
+// Returns the keys of a map having a string as key. The order of a map
+// changes at each iteration, and this one always stays the same.
+func SortedKeys(mapWithStringKeys interface{}) []string {
+	mapKeys := reflect.ValueOf(mapWithStringKeys).MapKeys()
+	keys := make([]string, len(mapKeys))
+	for i, key := range mapKeys {
+		keys[i] = key.String()
+	}
+	sort.Strings(keys)
+
+	return keys
+}
-- 
2.43.0


From 28d824c6e83105fb7021d3aa7d2784db95d12bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 16/29] fix: create each sqlite and fts5 index in a single
 durable transaction

---
 pkg/index/fts5.go            | 34 +++++++++++++++++++----------
 pkg/index/sqlite.go          | 42 +++++++++++++++++++++++-------------
 pkg/index/sqlite/metadata.go |  9 ++++----
 pkg/index/sqlite/open.go     | 14 ++++++------
 pkg/index/sqlite/sanitize.go |  3 +--
 5 files changed, 62 insertions(+), 40 deletions(-)

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 08ec1a5..8bb0ad5 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -69,8 +69,16 @@ func (sqlite *Fts5) Name() string {
 }
 
 func (sqlite *Fts5) createIndex() error {
+	// Everything is written by a single transaction: the index must
+	// not exist at all if it's creation does not reach the end
+	transaction, err := sqlite.db.Begin()
+	if err != nil {
+		return err
+	}
+	defer transaction.Rollback() // No effect after the commit
+
 	metadata, err := sqlitePackage.NewMetadata(
-		sqlite.db,
+		transaction,
 		sqlite.config.Name,
 		sqlite.input,
 	)
@@ -101,7 +109,7 @@ func (sqlite *Fts5) createIndex() error {
 			return errors.New("__offset is a reserved property name for the fts5 index.")
 		}
 
-		propertyIdentifier, err := sqlitePackage.SanitizeIdentifier(sqlite.db, property)
+		propertyIdentifier, err := sqlitePackage.SanitizeIdentifier(transaction, property)
 		if err != nil {
 			return err
 		}
@@ -110,7 +118,7 @@ func (sqlite *Fts5) createIndex() error {
 		insertPlaceholders[propertyIndex] = "?"
 	}
 
-	tableIdentifier, err := sqlite.getIndexTableIdentifier()
+	tableIdentifier, err := sqlite.getIndexTableIdentifier(transaction)
 	if err != nil {
 		return err
 	}
@@ -123,12 +131,12 @@ func (sqlite *Fts5) createIndex() error {
 		prefixString += strconv.Itoa(prefixValue)
 	}
 
-	tokenizeString, err := sqlitePackage.SanitizeIdentifier(sqlite.db, sqlite.config.Tokenize)
+	tokenizeString, err := sqlitePackage.SanitizeIdentifier(transaction, sqlite.config.Tokenize)
 	if err != nil {
 		return err
 	}
 
-	_, err = sqlite.db.Exec(`
+	_, err = transaction.Exec(`
 		CREATE VIRTUAL TABLE ` + tableIdentifier + ` USING fts5(
 			"__offset" UNINDEXED,
 			` + strings.Join(columnIdentifiers, ", ") + `,
@@ -140,7 +148,7 @@ func (sqlite *Fts5) createIndex() error {
 		return fmt.Errorf("Error while creating index table: %w", err)
 	}
 
-	preparedInsert, err := sqlite.db.Prepare(`
+	preparedInsert, err := transaction.Prepare(`
 		INSERT INTO ` + tableIdentifier + ` (
 			"__offset",
 			` + strings.Join(columnIdentifiers, ", ") + `
@@ -186,6 +194,10 @@ func (sqlite *Fts5) createIndex() error {
 		return err
 	}
 
+	if err := transaction.Commit(); err != nil {
+		return err
+	}
+
 	row := sqlite.db.QueryRow(`SELECT COUNT(1) FROM ` + tableIdentifier + `;`)
 	if err := row.Err(); err != nil {
 		return err
@@ -201,15 +213,15 @@ func (sqlite *Fts5) createIndex() error {
 	return nil
 }
 
-func (sqlite *Fts5) getIndexIdentifier(propertyName string) (string, error) {
+func (sqlite *Fts5) getIndexIdentifier(db sqlitePackage.Database, propertyName string) (string, error) {
 	return sqlitePackage.SanitizeIdentifier(
-		sqlite.db,
+		db,
 		fmt.Sprintf("index_%v_%v", sqlite.config.Name, propertyName),
 	)
 }
 
-func (sqlite *Fts5) getIndexTableIdentifier() (string, error) {
-	return sqlitePackage.SanitizeIdentifier(sqlite.db, fmt.Sprintf("rodb_%v_index", sqlite.config.Name))
+func (sqlite *Fts5) getIndexTableIdentifier(db sqlitePackage.Database) (string, error) {
+	return sqlitePackage.SanitizeIdentifier(db, fmt.Sprintf("rodb_%v_index", sqlite.config.Name))
 }
 
 func (sqlite *Fts5) GetRecordPositions(
@@ -230,7 +242,7 @@ func (sqlite *Fts5) GetRecordPositions(
 		return nil, fmt.Errorf("This index must receive a single filter named 'match'.")
 	}
 
-	tableIdentifier, err := sqlite.getIndexTableIdentifier()
+	tableIdentifier, err := sqlite.getIndexTableIdentifier(sqlite.db)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 1293396..4289223 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -67,8 +67,16 @@ func (sqlite *Sqlite) Name() string {
 }
 
 func (sqlite *Sqlite) createIndex() error {
+	// Everything is written by a single transaction: the index must
+	// not exist at all if it's creation does not reach the end
+	transaction, err := sqlite.db.Begin()
+	if err != nil {
+		return err
+	}
+	defer transaction.Rollback() // No effect after the commit
+
 	metadata, err := sqlitePackage.NewMetadata(
-		sqlite.db,
+		transaction,
 		sqlite.config.Name,
 		sqlite.input,
 	)
@@ -97,11 +105,11 @@ func (sqlite *Sqlite) createIndex() error {
 	indexIdentifiers := make([]string, len(sqlite.config.Properties))
 	insertPlaceholders := make([]string, len(sqlite.config.Properties))
 	for propertyIndex, property := range sqlite.config.Properties {
-		propertyIdentifier, err := sqlite.getPropertyIdentifier(property.Name)
+		propertyIdentifier, err := sqlite.getPropertyIdentifier(transaction, property.Name)
 		if err != nil {
 			return err
 		}
-		indexIdentifier, err := sqlite.getIndexIdentifier(property.Name)
+		indexIdentifier, err := sqlite.getIndexIdentifier(transaction, property.Name)
 		if err != nil {
 			return err
 		}
@@ -112,12 +120,12 @@ func (sqlite *Sqlite) createIndex() error {
 		insertPlaceholders[propertyIndex] = "?"
 	}
 
-	tableIdentifier, err := sqlite.getIndexTableIdentifier()
+	tableIdentifier, err := sqlite.getIndexTableIdentifier(transaction)
 	if err != nil {
 		return err
 	}
 
-	_, err = sqlite.db.Exec(`
+	_, err = transaction.Exec(`
 		CREATE TABLE ` + tableIdentifier + ` (
 			"offset" INTEGER NOT NULL,
 			` + strings.Join(columnDefinitions, ", ") + `
@@ -128,7 +136,7 @@ func (sqlite *Sqlite) createIndex() error {
 	}
 
 	for propertyIndex, indexIdentifier := range indexIdentifiers {
-		_, err = sqlite.db.Exec(`
+		_, err = transaction.Exec(`
 			CREATE INDEX ` + indexIdentifier + ` ON ` + tableIdentifier + ` (` + columnIdentifiers[propertyIndex] + `);
 		`)
 		if err != nil {
@@ -136,7 +144,7 @@ func (sqlite *Sqlite) createIndex() error {
 		}
 	}
 
-	preparedInsert, err := sqlite.db.Prepare(`
+	preparedInsert, err := transaction.Prepare(`
 		INSERT INTO ` + tableIdentifier + ` (
 			"offset",
 			` + strings.Join(columnIdentifiers, ", ") + `
@@ -182,6 +190,10 @@ func (sqlite *Sqlite) createIndex() error {
 		return err
 	}
 
+	if err := transaction.Commit(); err != nil {
+		return err
+	}
+
 	row := sqlite.db.QueryRow(`SELECT COUNT(1) FROM ` + tableIdentifier + `;`)
 	if err := row.Err(); err != nil {
 		return err
@@ -197,19 +209,19 @@ func (sqlite *Sqlite) createIndex() error {
 	return nil
 }
 
-func (sqlite *Sqlite) getPropertyIdentifier(propertyName string) (string, error) {
-	return sqlitePackage.SanitizeIdentifier(sqlite.db, fmt.Sprintf("property_%v", propertyName))
+func (sqlite *Sqlite) getPropertyIdentifier(db sqlitePackage.Database, propertyName string) (string, error) {
+	return sqlitePackage.SanitizeIdentifier(db, fmt.Sprintf("property_%v", propertyName))
 }
 
-func (sqlite *Sqlite) getIndexIdentifier(propertyName string) (string, error) {
+func (sqlite *Sqlite) getIndexIdentifier(db sqlitePackage.Database, propertyName string) (string, error) {
 	return sqlitePackage.SanitizeIdentifier(
-		sqlite.db,
+		db,
 		fmt.Sprintf("index_%v_%v", sqlite.config.Name, propertyName),
 	)
 }
 
-func (sqlite *Sqlite) getIndexTableIdentifier() (string, error) {
-	return sqlitePackage.SanitizeIdentifier(sqlite.db, fmt.Sprintf("rodb_%v_index", sqlite.config.Name))
+func (sqlite *Sqlite) getIndexTableIdentifier(db sqlitePackage.Database) (string, error) {
+	return sqlitePackage.SanitizeIdentifier(db, fmt.Sprintf("rodb_%v_index", sqlite.config.Name))
 }
 
 func (sqlite *Sqlite) GetRecordPositions(
@@ -224,7 +236,7 @@ func (sqlite *Sqlite) GetRecordPositions(
 		return nil, fmt.Errorf("This index requires at least one filter.")
 	}
 
-	tableIdentifier, err := sqlite.getIndexTableIdentifier()
+	tableIdentifier, err := sqlite.getIndexTableIdentifier(sqlite.db)
 	if err != nil {
 		return nil, err
 	}
@@ -237,7 +249,7 @@ func (sqlite *Sqlite) GetRecordPositions(
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
 		}
 
-		columnIdentifier, err := sqlite.getPropertyIdentifier(propertyName)
+		columnIdentifier, err := sqlite.getPropertyIdentifier(sqlite.db, propertyName)
 		if err != nil {
 			return nil, err
 		}
diff --git a/pkg/index/sqlite/metadata.go b/pkg/index/sqlite/metadata.go
index 602025c..fa454b3 100644
--- a/pkg/index/sqlite/metadata.go
+++ b/pkg/index/sqlite/metadata.go
@@ -1,7 +1,6 @@
 package sqlite
 
 import (
-	"database/sql"
 	"fmt"
 	_ "github.com/mattn/go-sqlite3"
 	"github.com/rodb-io/rodb/pkg/input"
@@ -12,7 +11,7 @@ import (
 const CurrentVersion = uint16(1)
 
 type Metadata struct {
-	db                        *sql.DB
+	db                        Database
 	indexName                 string
 	version                   uint16
 	inputFileModificationTime time.Time
@@ -21,7 +20,7 @@ type Metadata struct {
 }
 
 func NewMetadata(
-	db *sql.DB,
+	db Database,
 	indexName string,
 	input input.Input,
 ) (*Metadata, error) {
@@ -48,7 +47,7 @@ func NewMetadata(
 }
 
 func LoadMetadata(
-	db *sql.DB,
+	db Database,
 	indexName string,
 ) (*Metadata, error) {
 	metadata := &Metadata{
@@ -83,7 +82,7 @@ func LoadMetadata(
 }
 
 func HasMetadata(
-	db *sql.DB,
+	db Database,
 	indexName string,
 ) (bool, error) {
 	metadata := &Metadata{
diff --git a/pkg/index/sqlite/open.go b/pkg/index/sqlite/open.go
index 55593a3..49edbaa 100644
--- a/pkg/index/sqlite/open.go
+++ b/pkg/index/sqlite/open.go
@@ -5,6 +5,13 @@ import (
 	_ "github.com/mattn/go-sqlite3"
 )
 
+// Allows to use either the database directly or a transaction
+type Database interface {
+	Exec(query string, args ...interface{}) (sql.Result, error)
+	Prepare(query string) (*sql.Stmt, error)
+	QueryRow(query string, args ...interface{}) *sql.Row
+}
+
 // We use the driver directly rather than the database/sql interfaces, because the generic
 // way tries to autodetect and normalize the return types. But we want to get the real types.
 func Open(dsn string) (*sql.DB, error) {
@@ -13,12 +20,5 @@ func Open(dsn string) (*sql.DB, error) {
 		return nil, err
 	}
 
-	if _, err = db.Exec(`PRAGMA synchronous = OFF;`); err != nil {
-		return nil, err
-	}
-	if _, err = db.Exec(`PRAGMA journal_mode = OFF;`); err != nil {
-		return nil, err
-	}
-
 	return db, nil
 }
diff --git a/pkg/index/sqlite/sanitize.go b/pkg/index/sqlite/sanitize.go
index 6256e3a..778fc6a 100644
--- a/pkg/index/sqlite/sanitize.go
+++ b/pkg/index/sqlite/sanitize.go
@@ -1,11 +1,10 @@
 package sqlite
 
 import (
-	"database/sql"
 	_ "github.com/mattn/go-sqlite3"
 )
 
-func SanitizeIdentifier(db *sql.DB, identifier string) (string, error) {
+func SanitizeIdentifier(db Database, identifier string) (string, error) {
 	row := db.QueryRow("SELECT printf('%w', ?)", identifier)
 	if err := row.Err(); err != nil {
 		return "", err
-- 
2.43.0


From 7ccd469f61c518887be4b7cababbfac6aa1ae375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 17/29] fix: always use the same connection for an in-memory
 sqlite database

---
 pkg/index/sqlite/open.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/index/sqlite/open.go b/pkg/index/sqlite/open.go
index 49edbaa..7521387 100644
--- a/pkg/index/sqlite/open.go
+++ b/pkg/index/sqlite/open.go
@@ -20,5 +20,17 @@ func Open(dsn string) (*sql.DB, error) {
 		return nil, err
 	}
 
+	var file string
+	row := db.QueryRow(`SELECT COALESCE("file", '') FROM pragma_database_list WHERE "name" = 'main';`)
+	if err := row.Scan(&file); err != nil {
+		_ = db.Close()
+		return nil, err
+	}
+	if file == "" {
+		// Each connection to an in-memory database
+		// would get it's own and empty database
+		db.SetMaxOpenConns(1)
+	}
+
 	return db, nil
 }
-- 
2.43.0


From ff17b0d68f174f45ee7f5a59d854b3a3f4a29363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 18/29] fix: do not wait forever for a stalled client at
 shutdown

---
 pkg/service/http.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 78f4c08..9c5ce5d 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -17,8 +17,12 @@ import (
 	"net/url"
 	"regexp"
 	"sync"
+	"time"
 )
 
+// How long the requests in progress can last when closing the service
+const shutdownTimeout = 30 * time.Second
+
 type Http struct {
 	config         *HttpConfig
 	httpListener   net.Listener
@@ -325,16 +329,29 @@ func (service *Http) Close() error {
 
 func (service *Http) shutdown() error {
 	if service.config.Http != nil {
-		if err := service.httpServer.Shutdown(context.Background()); err != nil {
+		if err := service.shutdownServer(service.httpServer); err != nil {
 			return err
 		}
 	}
 
 	if service.config.Https != nil {
-		if err := service.httpsServer.Shutdown(context.Background()); err != nil {
+		if err := service.shutdownServer(service.httpsServer); err != nil {
 			return err
 		}
 	}
 
 	return nil
 }
+
+func (service *Http) shutdownServer(server *http.Server) error {
+	ctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+
+	err := server.Shutdown(ctx)
+	if errors.Is(err, context.DeadlineExceeded) {
+		// Some clients may never send their request or never read the response
+		return server.Close()
+	}
+
+	return err
+}
-- 
2.43.0


From d5abe2cfc60831af6156d657ffd8027be5a108a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 19/29] fix: handle an interrupt as soon as a service is
 available

---
 cmd/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 97af3f1..c92bb9b 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -93,6 +93,9 @@ func main() {
 		}
 	})()
 
+	signals := make(chan os.Signal, 1)
+	signal.Notify(signals, os.Interrupt, os.Kill)
+
 	services, err := service.NewFromConfigs(config.Services, outputs, log)
 	if err != nil {
 		log.Errorf("Error initializing services: %v", err)
@@ -100,8 +103,6 @@ func main() {
 		return
 	}
 	go (func() {
-		signals := make(chan os.Signal, 1)
-		signal.Notify(signals, os.Interrupt, os.Kill)
 		signal := <-signals
 		log.Printf("Received signal '%v'. Shutting down...", signal.String())
 
-- 
2.43.0


From fdf845a9aae8dce40e4e1710d5b4854ddbdb0cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 20/29] fix: report when a configured file cannot be checked
 instead of panicking

---
 pkg/input/csv_config.go    | 3 +++
 pkg/input/json_config.go   | 3 +++
 pkg/input/xml_config.go    | 3 +++
 pkg/service/http_config.go | 6 ++++++
 4 files changed, 15 insertions(+)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 8abae79..dcafb8e 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -68,6 +68,9 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The csv file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return err
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/json_config.go b/pkg/input/json_config.go
index 489cba3..7246f70 100644
--- a/pkg/input/json_config.go
+++ b/pkg/input/json_config.go
@@ -40,6 +40,9 @@ func (config *JsonConfig) Validate(parsers map[string]parser.Config, log *logrus
 	if os.IsNotExist(err) {
 		return errors.New("The json file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return err
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 8cf3b00..3a46152 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -74,6 +74,9 @@ func (config *XmlConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The xml file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return err
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 98c78e0..4059432 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -109,6 +109,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("certificatePath: The file '" + config.CertificatePath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("certificatePath: %w", err)
+	}
 	if certificateFileInfo.IsDir() {
 		return errors.New("certificatePath: The path '" + config.CertificatePath + "' is not a file")
 	}
@@ -120,6 +123,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("privateKeyFile: The file '" + config.PrivateKeyPath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("privateKeyFile: %w", err)
+	}
 	if privateKeyFile.IsDir() {
 		return errors.New("privateKeyFile: The path '" + config.PrivateKeyPath + "' is not a file")
 	}
-- 
2.43.0


From 5428b4d4360d8bd907466d0a8f2ad45ec9495b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 21/29] fix: keep the records with the same sort values in the
 order of the file

---
 pkg/input/record/sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/input/record/sort.go b/pkg/input/record/sort.go
index 4ff1408..aa8ca6d 100644
--- a/pkg/input/record/sort.go
+++ b/pkg/input/record/sort.go
@@ -7,7 +7,7 @@ import (
 
 func (records List) Sort(config []*SortConfig) List {
 	sorter := &recordListSorter{records, config}
-	sort.Sort(sorter)
+	sort.Stable(sorter)
 	return sorter.records
 }
 
-- 
2.43.0


From 56305c61a52b686021b9aa5444310b645dd742f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 22/29] fix: refuse a wildcard index which was built for other
 properties

---
 pkg/index/wildcard.go      | 12 +++++++++++-
 pkg/index/wildcard/node.go | 13 +++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 4a43efb..d4d5fc6 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -74,7 +74,8 @@ func (wildcard *Wildcard) createIndex() error {
 		if err != nil {
 			return err
 		}
-		if err := index[property].Save(); err != nil {
+		// Recording to which property this tree belongs
+		if err := index[property].SetValue([]byte(property)); err != nil {
 			return err
 		}
 
@@ -190,6 +191,15 @@ func (wildcard *Wildcard) loadIndex() error {
 		if err != nil {
 			return err
 		}
+
+		// The trees are empty-named in the indexes created by the previous versions
+		indexedProperty, err := index[property].Value()
+		if err != nil {
+			return err
+		}
+		if len(indexedProperty) > 0 && string(indexedProperty) != property {
+			return fmt.Errorf("The configured properties does not match the index file contents.")
+		}
 	}
 
 	wildcard.index = index
diff --git a/pkg/index/wildcard/node.go b/pkg/index/wildcard/node.go
index 1041f40..cc53706 100644
--- a/pkg/index/wildcard/node.go
+++ b/pkg/index/wildcard/node.go
@@ -89,6 +89,19 @@ func (node *TreeNode) Value() ([]byte, error) {
 	return node.stream.Get(int64(node.valueOffset), int(node.valueLength))
 }
 
+// Adds the given value to the stream and assigns it to this node
+func (node *TreeNode) SetValue(value []byte) error {
+	offset, err := node.stream.Add(value)
+	if err != nil {
+		return err
+	}
+
+	node.valueOffset = TreeNodeValueOffset(offset)
+	node.valueLength = int64(len(value))
+
+	return node.Save()
+}
+
 func (node *TreeNode) Serialize() []byte {
 	buffer := make([]byte, TreeNodeSize)
 
-- 
2.43.0


From 54cccc447e0b18671d90208736ddfd1691d2cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 23/29] fix: refuse a sqlite or fts5 index which was built for
 other properties

---
 pkg/index/fts5.go              | 17 ++++++++
 pkg/index/sqlite.go            |  8 ++++
 pkg/index/sqlite/definition.go | 79 ++++++++++++++++++++++++++++++++++
 3 files changed, 104 insertions(+)
 create mode 100644 pkg/index/sqlite/definition.go

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 8bb0ad5..9f660df 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -55,6 +55,10 @@ func NewFts5(
 		if err := metadata.AssertValid(sqlite.input); err != nil {
 			return nil, err
 		}
+
+		if err := sqlitePackage.AssertDefinition(sqlite.db, sqlite.config.Name, sqlite.definition()); err != nil {
+			return nil, err
+		}
 	} else {
 		if err := sqlite.createIndex(); err != nil {
 			return nil, fmt.Errorf("Error while creating the index: %w", err)
@@ -68,6 +72,15 @@ func (sqlite *Fts5) Name() string {
 	return sqlite.config.Name
 }
 
+// The configuration values on which the contents of the index depends
+func (sqlite *Fts5) definition() interface{} {
+	return map[string]interface{}{
+		"properties": sqlite.config.Properties,
+		"prefix":     sqlite.config.Prefix,
+		"tokenize":   sqlite.config.Tokenize,
+	}
+}
+
 func (sqlite *Fts5) createIndex() error {
 	// Everything is written by a single transaction: the index must
 	// not exist at all if it's creation does not reach the end
@@ -90,6 +103,10 @@ func (sqlite *Fts5) createIndex() error {
 		return err
 	}
 
+	if err := sqlitePackage.SaveDefinition(transaction, sqlite.config.Name, sqlite.definition()); err != nil {
+		return err
+	}
+
 	updateProgress := util.TrackProgress(sqlite.input, sqlite.config.Logger)
 
 	inputIterator, end, err := sqlite.input.IterateAll()
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 4289223..b4f4f00 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -53,6 +53,10 @@ func NewSqlite(
 		if err := metadata.AssertValid(sqlite.input); err != nil {
 			return nil, err
 		}
+
+		if err := sqlitePackage.AssertDefinition(sqlite.db, sqlite.config.Name, sqlite.config.Properties); err != nil {
+			return nil, err
+		}
 	} else {
 		if err := sqlite.createIndex(); err != nil {
 			return nil, fmt.Errorf("Error while creating the index: %w", err)
@@ -88,6 +92,10 @@ func (sqlite *Sqlite) createIndex() error {
 		return err
 	}
 
+	if err := sqlitePackage.SaveDefinition(transaction, sqlite.config.Name, sqlite.config.Properties); err != nil {
+		return err
+	}
+
 	updateProgress := util.TrackProgress(sqlite.input, sqlite.config.Logger)
 
 	inputIterator, end, err := sqlite.input.IterateAll()
diff --git a/pkg/index/sqlite/definition.go b/pkg/index/sqlite/definition.go
new file mode 100644
index 0000000..d9ffff5
--- /dev/null
+++ b/pkg/index/sqlite/definition.go
@@ -0,0 +1,79 @@
+package sqlite
+
+import (
+	"encoding/json"
+	"fmt"
+	_ "github.com/mattn/go-sqlite3"
+)
+
+func getDefinitionTableIdentifier(db Database, indexName string) (string, error) {
+	return SanitizeIdentifier(db, fmt.Sprintf("rodb_%v_definition", indexName))
+}
+
+// Records the configuration values from which the index is being built
+func SaveDefinition(db Database, indexName string, definition interface{}) error {
+	serialized, err := json.Marshal(definition)
+	if err != nil {
+		return err
+	}
+
+	tableIdentifier, err := getDefinitionTableIdentifier(db, indexName)
+	if err != nil {
+		return err
+	}
+
+	_, err = db.Exec(`
+		CREATE TABLE ` + tableIdentifier + ` (
+			"definition" TEXT NOT NULL
+		);
+	`)
+	if err != nil {
+		return err
+	}
+
+	_, err = db.Exec(
+		`INSERT INTO `+tableIdentifier+` ("definition") VALUES (?);`,
+		string(serialized),
+	)
+
+	return err
+}
+
+// Validates that the index has been built from the given configuration values
+func AssertDefinition(db Database, indexName string, definition interface{}) error {
+	serialized, err := json.Marshal(definition)
+	if err != nil {
+		return err
+	}
+
+	tableIdentifier, err := getDefinitionTableIdentifier(db, indexName)
+	if err != nil {
+		return err
+	}
+
+	row := db.QueryRow(`
+		SELECT COUNT(*)
+		FROM sqlite_master
+		WHERE type = 'table'
+		AND name = ` + tableIdentifier + `;
+	`)
+	var count int64
+	if err := row.Scan(&count); err != nil {
+		return err
+	}
+	if count == 0 {
+		// Created by a previous version, which did not record it
+		return nil
+	}
+
+	var savedDefinition string
+	row = db.QueryRow(`SELECT "definition" FROM ` + tableIdentifier + `;`)
+	if err := row.Scan(&savedDefinition); err != nil {
+		return err
+	}
+	if savedDefinition != string(serialized) {
+		return fmt.Errorf("The configured index properties does not match the index contents.")
+	}
+
+	return nil
+}
-- 
2.43.0


From 8402b6514ea8372f4a0b5eb9e3107d67e12791fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 24/29] fix: report an invalid wildcard index file instead of
 panicking

---
 pkg/index/wildcard/metadata.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/index/wildcard/metadata.go b/pkg/index/wildcard/metadata.go
index c5596f4..c5dee74 100644
--- a/pkg/index/wildcard/metadata.go
+++ b/pkg/index/wildcard/metadata.go
@@ -156,11 +156,14 @@ func (metadata *Metadata) Unserialize(data io.Reader) error {
 	if err := binary.Read(data, binary.BigEndian, &rootNodeOffsetCount); err != nil {
 		return err
 	}
-	metadata.rootNodeOffsets = make([]TreeNodeOffset, int(rootNodeOffsetCount))
+	// The count cannot be trusted before the metadata has been validated
+	metadata.rootNodeOffsets = make([]TreeNodeOffset, 0)
 	for i := int64(0); i < rootNodeOffsetCount; i++ {
-		if err := binary.Read(data, binary.BigEndian, &metadata.rootNodeOffsets[i]); err != nil {
+		var rootNodeOffset TreeNodeOffset
+		if err := binary.Read(data, binary.BigEndian, &rootNodeOffset); err != nil {
 			return err
 		}
+		metadata.rootNodeOffsets = append(metadata.rootNodeOffsets, rootNodeOffset)
 	}
 
 	return nil
-- 
2.43.0


From 6d91fd714ab1ba9146afcdd2d43c5e74fc2017db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 25/29] fix: fail to start when the https certificate cannot be
 loaded

---
 pkg/service/http.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 9c5ce5d..48dd2d7 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -2,6 +2,7 @@ package service
 
 import (
 	"context"
+	"crypto/tls"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -80,6 +81,21 @@ func NewHttp(
 	}
 
 	var err error
+	var tlsConfig *tls.Config
+	if config.Https != nil {
+		// Must be checked before anything gets available
+		certificate, err := tls.LoadX509KeyPair(
+			config.Https.CertificatePath,
+			config.Https.PrivateKeyPath,
+		)
+		if err != nil {
+			return nil, fmt.Errorf("Cannot load the https certificate: %w", err)
+		}
+		tlsConfig = &tls.Config{
+			Certificates: []tls.Certificate{certificate},
+		}
+	}
+
 	if config.Http != nil {
 		service.httpListener, service.httpServer, err = service.createServer(config.Http.Listen)
 		if err != nil {
@@ -97,15 +113,12 @@ func NewHttp(
 		if err != nil {
 			return nil, err
 		}
+		service.httpsServer.TLSConfig = tlsConfig
 
 		service.waitGroup.Add(1)
 		go func() {
 			defer service.waitGroup.Done()
-			service.lastHttpsError = service.httpsServer.ServeTLS(
-				service.httpsListener,
-				config.Https.CertificatePath,
-				config.Https.PrivateKeyPath,
-			)
+			service.lastHttpsError = service.httpsServer.ServeTLS(service.httpsListener, "", "")
 		}()
 	}
 
-- 
2.43.0


From d66bdd417ea979b9dc5b910d8d2b7f6a88688011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 26/29] fix: do not keep a service running when one of its two
 servers has failed

When the listener of the http or https server of a service fails permanently,
the error was only reported once the other server was closed too. Both servers
are also created before any of them starts to serve.
---
 pkg/service/http.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 48dd2d7..c9d9743 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -101,12 +101,6 @@ func NewHttp(
 		if err != nil {
 			return nil, err
 		}
-
-		service.waitGroup.Add(1)
-		go func() {
-			defer service.waitGroup.Done()
-			service.lastHttpError = service.httpServer.Serve(service.httpListener)
-		}()
 	}
 	if config.Https != nil {
 		service.httpsListener, service.httpsServer, err = service.createServer(config.Https.Listen)
@@ -114,11 +108,22 @@ func NewHttp(
 			return nil, err
 		}
 		service.httpsServer.TLSConfig = tlsConfig
+	}
 
+	if config.Http != nil {
+		service.waitGroup.Add(1)
+		go func() {
+			defer service.waitGroup.Done()
+			service.lastHttpError = service.httpServer.Serve(service.httpListener)
+			service.closeAfterError(service.lastHttpError, service.httpsServer)
+		}()
+	}
+	if config.Https != nil {
 		service.waitGroup.Add(1)
 		go func() {
 			defer service.waitGroup.Done()
 			service.lastHttpsError = service.httpsServer.ServeTLS(service.httpsListener, "", "")
+			service.closeAfterError(service.lastHttpsError, service.httpServer)
 		}()
 	}
 
@@ -139,6 +144,18 @@ func (service *Http) createServer(listen string) (net.Listener, *http.Server, er
 	return listener, server, nil
 }
 
+// When one of the servers cannot continue, the other one
+// must not hide it by keeping the service running
+func (service *Http) closeAfterError(err error, otherServer *http.Server) {
+	if err == http.ErrServerClosed || otherServer == nil {
+		return
+	}
+
+	if err := otherServer.Close(); err != nil {
+		service.config.Logger.Errorf("Error while closing the service: %v", err)
+	}
+}
+
 func (service *Http) Name() string {
 	return service.config.Name
 }
-- 
2.43.0


From 4cc30c5d022a0127ff904cd6c01aa419a834edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 27/29] fix: wait for all the services at the same time

A service which failed was not noticed as long as a service which happened
to be before it in the iteration was still running.
---
 pkg/service/service.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/service/service.go b/pkg/service/service.go
index bade741..fa83a47 100644
--- a/pkg/service/service.go
+++ b/pkg/service/service.go
@@ -52,9 +52,22 @@ func NewFromConfigs(
 }
 
 func Wait(services List) error {
+	// Waiting for all of them at the same time, because
+	// any of them can fail while the others are running
+	errors := make(chan error, len(services))
 	for serviceName, service := range services {
-		if err := service.Wait(); err != nil {
-			return fmt.Errorf("%v service: %w", serviceName, err)
+		go func(serviceName string, service Service) {
+			if err := service.Wait(); err != nil {
+				errors <- fmt.Errorf("%v service: %w", serviceName, err)
+				return
+			}
+			errors <- nil
+		}(serviceName, service)
+	}
+
+	for range services {
+		if err := <-errors; err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 13b9e7b2a5ade6fd1d60ac4c4afd6992f6310949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:17 +0000
Subject: [PATCH 28/29] fix: a negative array index is a missing value, not a
 panic

---
 pkg/input/json_record.go | 2 +-
 pkg/input/record/path.go | 2 +-
 pkg/input/xml_record.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/input/json_record.go b/pkg/input/json_record.go
index fc2b70d..77f4c00 100644
--- a/pkg/input/json_record.go
+++ b/pkg/input/json_record.go
@@ -63,7 +63,7 @@ func (record *JsonRecord) getSubValue(data interface{}, path []string) (interfac
 
 		// Index does not exist: return nil (we must not output
 		// an error in this case, even if there is a sub-path)
-		if indexInPath >= len(dataArray) {
+		if indexInPath < 0 || indexInPath >= len(dataArray) {
 			return nil, nil
 		}
 
diff --git a/pkg/input/record/path.go b/pkg/input/record/path.go
index 17cfce0..d311f64 100644
--- a/pkg/input/record/path.go
+++ b/pkg/input/record/path.go
@@ -27,7 +27,7 @@ func GetSubValue(value interface{}, path []string) (interface{}, error) {
 		}
 
 		valueArray := value.([]interface{})
-		if index >= len(valueArray) {
+		if index < 0 || index >= len(valueArray) {
 			// Not having the required index is a common case that
 			// should not trigger an error, but get a nil value
 			return nil, nil
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 9ad8294..591b338 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -223,7 +223,7 @@ func (record *XmlRecord) getSubArrayValue(
 		return nil, fmt.Errorf("Cannot get sub-path '%v' because the requested key is '%v', but the value is an array", path, path[0])
 	}
 
-	if requestedIndex >= len(nodes) {
+	if requestedIndex < 0 || requestedIndex >= len(nodes) {
 		// Not having the required index is a common case that
 		// should not trigger an error, but get a nil value
 		return nil, nil
-- 
2.43.0


From f6d656e258068ebecadd3f33ced18dc76945130e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 29/29] fix: notice a data file which is replaced by another
 one

A file that is renamed over an input does not send any write event: the
process went on, combining positions found in the new file with records
read from the former one. The watched file is now compared with the one
which is at its path, and a scan refuses to read another file than the
one that has been opened.
---
 pkg/input/csv.go     | 23 +++++++++++++++++------
 pkg/input/json.go    | 24 ++++++++++++++++++------
 pkg/input/xml.go     | 24 ++++++++++++++++++------
 pkg/util/fsnotify.go | 33 +++++++++++++++++++++++++++++++++
 4 files changed, 86 insertions(+), 18 deletions(-)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index d68b6d8..5c06956 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -41,12 +41,6 @@ func NewCsv(
 		watcher:    watcher,
 	}
 
-	util.StartFilesystemWatchProcess(
-		csvInput.watcher,
-		csvInput.config.ShouldDieOnInputChange(),
-		csvInput.config.Logger,
-	)
-
 	reader, readerBuffer, csvReader, file, err := csvInput.open()
 	if err != nil {
 		return nil, err
@@ -56,10 +50,21 @@ func NewCsv(
 	csvInput.csvFile = file
 	csvInput.csvReader = csvReader
 
+	util.StartFilesystemWatchProcess(
+		csvInput.watcher,
+		csvInput.config.ShouldDieOnInputChange(),
+		csvInput.config.Logger,
+		file,
+	)
+
 	if err := csvInput.watcher.Add(config.Path); err != nil {
 		return nil, err
 	}
 
+	if util.IsFileReplaced(file) {
+		return nil, errors.New("The file '" + config.Path + "' has been replaced while opening it")
+	}
+
 	if config.AutodetectColumns {
 		if err := csvInput.autodetectColumns(); err != nil {
 			return nil, err
@@ -181,6 +186,12 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 		return nil, nil, err
 	}
 
+	// The positions would not match the ones of the already opened file
+	if util.IsFileReplaced(csvInput.csvFile) {
+		_ = file.Close()
+		return nil, nil, errors.New("The file '" + csvInput.config.Path + "' has been replaced since it has been opened")
+	}
+
 	if csvInput.config.IgnoreFirstRow {
 		_, err = csvReader.Read()
 		if err != nil && err != io.EOF && !errors.Is(err, csv.ErrFieldCount) {
diff --git a/pkg/input/json.go b/pkg/input/json.go
index aee0837..de0d303 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/fsnotify/fsnotify"
 	"github.com/rodb-io/rodb/pkg/input/record"
@@ -32,12 +33,6 @@ func NewJson(config *JsonConfig) (*Json, error) {
 		watcher:    watcher,
 	}
 
-	util.StartFilesystemWatchProcess(
-		jsonInput.watcher,
-		jsonInput.config.ShouldDieOnInputChange(),
-		jsonInput.config.Logger,
-	)
-
 	reader, file, err := jsonInput.open()
 	if err != nil {
 		return nil, err
@@ -51,10 +46,21 @@ func NewJson(config *JsonConfig) (*Json, error) {
 		return nil, err
 	}
 
+	util.StartFilesystemWatchProcess(
+		jsonInput.watcher,
+		jsonInput.config.ShouldDieOnInputChange(),
+		jsonInput.config.Logger,
+		file,
+	)
+
 	if err := jsonInput.watcher.Add(config.Path); err != nil {
 		return nil, err
 	}
 
+	if util.IsFileReplaced(file) {
+		return nil, errors.New("The file '" + config.Path + "' has been replaced while opening it")
+	}
+
 	return jsonInput, nil
 }
 
@@ -122,6 +128,12 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 		return nil, nil, err
 	}
 
+	// The positions would not match the ones of the already opened file
+	if util.IsFileReplaced(jsonInput.jsonFile) {
+		_ = file.Close()
+		return nil, nil, errors.New("The file '" + jsonInput.config.Path + "' has been replaced since it has been opened")
+	}
+
 	// Creating a new decoder each time because we cannot reset
 	// it's internal state when seeking otherwise
 	jsonDecoder := json.NewDecoder(reader)
diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 250d5ff..f85997c 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -3,6 +3,7 @@ package input
 import (
 	"bufio"
 	"encoding/xml"
+	"errors"
 	"fmt"
 	"github.com/antchfx/xmlquery"
 	"github.com/fsnotify/fsnotify"
@@ -59,12 +60,6 @@ func NewXml(
 		parsers:    parsers,
 	}
 
-	util.StartFilesystemWatchProcess(
-		xmlInput.watcher,
-		xmlInput.config.ShouldDieOnInputChange(),
-		xmlInput.config.Logger,
-	)
-
 	file, err := os.Open(xmlInput.config.Path)
 	if err != nil {
 		return nil, err
@@ -74,10 +69,21 @@ func NewXml(
 	xmlInput.reader = io.ReadSeeker(file)
 	xmlInput.readerBuffer = bufio.NewReader(xmlInput.reader)
 
+	util.StartFilesystemWatchProcess(
+		xmlInput.watcher,
+		xmlInput.config.ShouldDieOnInputChange(),
+		xmlInput.config.Logger,
+		file,
+	)
+
 	if err := xmlInput.watcher.Add(config.Path); err != nil {
 		return nil, err
 	}
 
+	if util.IsFileReplaced(file) {
+		return nil, errors.New("The file '" + config.Path + "' has been replaced while opening it")
+	}
+
 	return xmlInput, nil
 }
 
@@ -192,6 +198,12 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 		return nil, nil, err
 	}
 
+	// The positions would not match the ones of the already opened file
+	if util.IsFileReplaced(xmlInput.xmlFile) {
+		_ = file.Close()
+		return nil, nil, errors.New("The file '" + xmlInput.config.Path + "' has been replaced since it has been opened")
+	}
+
 	reader := io.ReadSeeker(file)
 	readerBuffer := bufio.NewReader(reader)
 
diff --git a/pkg/util/fsnotify.go b/pkg/util/fsnotify.go
index d5aeecf..529cf26 100644
--- a/pkg/util/fsnotify.go
+++ b/pkg/util/fsnotify.go
@@ -4,12 +4,17 @@ import (
 	"fmt"
 	"github.com/fsnotify/fsnotify"
 	"github.com/sirupsen/logrus"
+	"os"
 )
 
+// Watching the given files for any modification. A modification can be done in the same
+// file, or by putting another file at the same place (in which case the watched file itself
+// does not receive any write event, and is not anymore the one that is available at this path).
 func StartFilesystemWatchProcess(
 	watcher *fsnotify.Watcher,
 	dieOnChange bool,
 	logger *logrus.Entry,
+	watchedFiles ...*os.File,
 ) {
 	go func() {
 		for {
@@ -18,6 +23,9 @@ func StartFilesystemWatchProcess(
 				if !ok {
 					return
 				}
+				if isAnyFileReplaced(watchedFiles) {
+					event.Op |= fsnotify.Write
+				}
 				if event.Op&fsnotify.Write == fsnotify.Write {
 					message := fmt.Sprintf("The file '%v' has been modified by another process", event.Name)
 					if dieOnChange {
@@ -35,3 +43,28 @@ func StartFilesystemWatchProcess(
 		}
 	}()
 }
+
+// Checks if the path of this opened file now leads to another file
+func IsFileReplaced(file *os.File) bool {
+	newFileInfo, err := os.Stat(file.Name())
+	if err != nil {
+		return false
+	}
+
+	openedFileInfo, err := file.Stat()
+	if err != nil {
+		return false
+	}
+
+	return !os.SameFile(newFileInfo, openedFileInfo)
+}
+
+func isAnyFileReplaced(files []*os.File) bool {
+	for _, file := range files {
+		if IsFileReplaced(file) {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0

