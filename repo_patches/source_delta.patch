From 63de7ff83925bd0ce3480f1e0682e7c01a534db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 01/12] fix: JSON import gives each distinct enum entry its own
 index

---
 format/parsing/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/parsing/json.go b/format/parsing/json.go
index 01f73bd..5a6c901 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -275,6 +275,7 @@ func parseEnumCollection(name string, jsonCaptures []*gabs.Container) (format.Ca
 		if val, ok := allEnumEntriesMapping[enumEntry]; ok {
 			enumIndex = val
 		} else {
+			allEnumEntriesMapping[enumEntry] = enumIndex
 			allEnumEntries = append(allEnumEntries, enumEntry)
 		}
 
-- 
2.43.0


From befb0ed685ca428b9fb864c7dcc6a43bcfc32974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 02/12] fix: read every item in full so loading does not depend
 on how the source is chunked

---
 format/io/load.go          | 2 +-
 format/io/reader.go        | 2 +-
 format/io/time.go          | 7 +++++--
 format/metadata/io.go      | 4 ++--
 internal/io/binary/util.go | 2 +-
 internal/io/rapv1/util.go  | 6 +++---
 6 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/format/io/load.go b/format/io/load.go
index 2660c52..288af4f 100644
--- a/format/io/load.go
+++ b/format/io/load.go
@@ -14,7 +14,7 @@ import (
 func GetRecoringVersion(file io.Reader) (int, int, error) {
 	version := make([]byte, 1)
 
-	bytesRead, err := file.Read(version)
+	bytesRead, err := io.ReadFull(file, version)
 	if err != nil {
 		return 0, bytesRead, err
 	}
diff --git a/format/io/reader.go b/format/io/reader.go
index 6d2ff16..de1dfad 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -196,7 +196,7 @@ func (r Reader) Read() (format.Recording, int, error) {
 	}
 
 	compressedFlag := []byte{0}
-	bytesRead, err = r.in.Read(compressedFlag)
+	bytesRead, err = io.ReadFull(r.in, compressedFlag)
 	totalBytesRead += bytesRead
 	if err != nil {
 		return nil, totalBytesRead, err
diff --git a/format/io/time.go b/format/io/time.go
index 0276415..8006018 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -178,7 +178,10 @@ func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
 	currentTime := float64(startTime)
 
 	for i := 1; i < int(numCaptures); i++ {
-		in.Read(buffer)
+		_, err = io.ReadFull(in, buffer)
+		if err != nil {
+			return nil, err
+		}
 		time := rapbinary.BytesToUnisngedFloatBST(0, float64(maxTimeDifference), buffer)
 		currentTime += time
 
@@ -192,7 +195,7 @@ func decodeTime(in io.Reader) ([]float64, error) {
 	typeByte := []byte{0}
 
 	// Read Storage Technique
-	_, err := in.Read(typeByte)
+	_, err := io.ReadFull(in, typeByte)
 	if err != nil {
 		return nil, err
 	}
diff --git a/format/metadata/io.go b/format/metadata/io.go
index 99a2053..b892b48 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -80,7 +80,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 		return NewBoolProperty(false), nil
 	case 5:
 		byteVal := make([]byte, 1)
-		_, err := b.Read(byteVal)
+		_, err := io.ReadFull(b, byteVal)
 		if err != nil {
 			return nil, err
 		}
@@ -164,7 +164,7 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 
 func ReadProperty(b io.Reader) (Property, error) {
 	propByte := make([]byte, 1)
-	_, err := b.Read(propByte)
+	_, err := io.ReadFull(b, propByte)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/io/binary/util.go b/internal/io/binary/util.go
index 6bb2456..b278285 100644
--- a/internal/io/binary/util.go
+++ b/internal/io/binary/util.go
@@ -18,7 +18,7 @@ func ReadUvarint(r io.Reader) (uint64, int, error) {
 	var i int
 	var totalRead int
 	for i = 0; i < binary.MaxVarintLen64; i++ {
-		read, err := r.Read(b)
+		read, err := io.ReadFull(r, b)
 		totalRead += read
 		if err != nil {
 			return x, totalRead, err
diff --git a/internal/io/rapv1/util.go b/internal/io/rapv1/util.go
index ca5ff15..ea0bac3 100644
--- a/internal/io/rapv1/util.go
+++ b/internal/io/rapv1/util.go
@@ -22,7 +22,7 @@ import (
 func getNumberOfRecordings(file io.Reader) (int, int, error) {
 	numberOfRecordings := make([]byte, 4)
 
-	bytesRead, err := file.Read(numberOfRecordings)
+	bytesRead, err := io.ReadFull(file, numberOfRecordings)
 	if err != nil {
 		return -1, bytesRead, err
 	}
@@ -151,7 +151,7 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 	recordingSize := make([]byte, 8)
 
 	bytesRead := bytesReadNumberRec
-	bytesReadFileSize, err := file.Read(recordingSize)
+	bytesReadFileSize, err := io.ReadFull(file, recordingSize)
 	bytesRead += bytesReadFileSize
 	if err != nil {
 		return nil, bytesRead, err
@@ -163,7 +163,7 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 
 	compressedSize := int64(binary.LittleEndian.Uint64(recordingSize))
 	compressedBytes := make([]byte, compressedSize)
-	compressedBytesRead, err := file.Read(compressedBytes)
+	compressedBytesRead, err := io.ReadFull(file, compressedBytes)
 	bytesRead += compressedBytesRead
 	if err != nil {
 		return nil, bytesRead, err
-- 
2.43.0


From b11c562abb4842ccef60fdcf63658d3423b3e8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 03/12] fix: lengths read from a corrupt file cause an error,
 not a panic or a huge allocation

---
 format/io/time.go            | 41 ++++++++++++++++++++----------------
 format/metadata/io.go        |  9 ++++----
 internal/io/binary/bytes.go  | 31 +++++++++++++++++++--------
 internal/io/binary/string.go | 18 ++++++++--------
 internal/io/binary/uint.go   |  8 +++----
 5 files changed, 63 insertions(+), 44 deletions(-)

diff --git a/format/io/time.go b/format/io/time.go
index 8006018..71b9469 100644
--- a/format/io/time.go
+++ b/format/io/time.go
@@ -126,32 +126,38 @@ func encodeTime(technique TimeStorageTechnique, out io.Writer, captures []format
 	return out.Write(dataBuffer.Bytes())
 }
 
-func decodeTime64(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
-	for i := 0; i < int(numCaptures); i++ {
+func decodeTime64(in io.Reader, numCaptures uint64) ([]float64, error) {
+	times := make([]float64, 0)
+	for i := uint64(0); i < numCaptures; i++ {
 		var time float64
 
-		binary.Read(in, binary.LittleEndian, &time)
+		err := binary.Read(in, binary.LittleEndian, &time)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = time
+		times = append(times, time)
 	}
 	return times, nil
 }
 
-func decodeTime32(in io.Reader, numCaptures int) ([]float64, error) {
-	times := make([]float64, numCaptures)
-	for i := 0; i < int(numCaptures); i++ {
+func decodeTime32(in io.Reader, numCaptures uint64) ([]float64, error) {
+	times := make([]float64, 0)
+	for i := uint64(0); i < numCaptures; i++ {
 
 		var time32 float32
-		binary.Read(in, binary.LittleEndian, &time32)
+		err := binary.Read(in, binary.LittleEndian, &time32)
+		if err != nil {
+			return nil, err
+		}
 
-		times[i] = float64(time32)
+		times = append(times, float64(time32))
 	}
 
 	return times, nil
 }
 
-func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
+func decodeTimeBST16(in io.Reader, numCaptures uint64) ([]float64, error) {
 	if numCaptures == 0 {
 		return make([]float64, 0), nil
 	}
@@ -172,12 +178,11 @@ func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
 		return nil, err
 	}
 
-	captures := make([]float64, numCaptures)
-	captures[0] = float64(startTime)
+	captures := []float64{float64(startTime)}
 	buffer := make([]byte, 2)
 	currentTime := float64(startTime)
 
-	for i := 1; i < int(numCaptures); i++ {
+	for i := uint64(1); i < numCaptures; i++ {
 		_, err = io.ReadFull(in, buffer)
 		if err != nil {
 			return nil, err
@@ -185,7 +190,7 @@ func decodeTimeBST16(in io.Reader, numCaptures int) ([]float64, error) {
 		time := rapbinary.BytesToUnisngedFloatBST(0, float64(maxTimeDifference), buffer)
 		currentTime += time
 
-		captures[i] = currentTime
+		captures = append(captures, currentTime)
 	}
 
 	return captures, nil
@@ -209,13 +214,13 @@ func decodeTime(in io.Reader) ([]float64, error) {
 
 	switch encodingTechnique {
 	case Raw64:
-		return decodeTime64(in, int(numCaptures))
+		return decodeTime64(in, numCaptures)
 
 	case Raw32:
-		return decodeTime32(in, int(numCaptures))
+		return decodeTime32(in, numCaptures)
 
 	case BST16:
-		return decodeTimeBST16(in, int(numCaptures))
+		return decodeTimeBST16(in, numCaptures)
 	}
 
 	return nil, fmt.Errorf("unrecognized time encoding: %d", encodingTechnique)
diff --git a/format/metadata/io.go b/format/metadata/io.go
index b892b48..574b546 100644
--- a/format/metadata/io.go
+++ b/format/metadata/io.go
@@ -145,17 +145,18 @@ func readPropData(b io.Reader, propertyType byte) (Property, error) {
 	case 25:
 		fallthrough
 	case 14:
-		len, _, err := rapbin.ReadUvarint(b)
+		length, _, err := rapbin.ReadUvarint(b)
 		if err != nil {
 			return nil, err
 		}
 		adjustedType := propertyType - 13
-		props := make([]Property, len)
-		for i := 0; i < int(len); i++ {
-			props[i], err = readPropData(b, adjustedType)
+		props := make([]Property, 0)
+		for i := uint64(0); i < length; i++ {
+			prop, err := readPropData(b, adjustedType)
 			if err != nil {
 				return nil, err
 			}
+			props = append(props, prop)
 		}
 		return newArrayProperty(adjustedType, props), nil
 	}
diff --git a/internal/io/binary/bytes.go b/internal/io/binary/bytes.go
index 675a1a4..e940dbf 100644
--- a/internal/io/binary/bytes.go
+++ b/internal/io/binary/bytes.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"io"
+	"math"
 )
 
 // BytesArrayToBytes creates a new byte array, prefixed with the length of the byte array
@@ -18,25 +19,37 @@ func BytesArrayToBytes(b []byte) []byte {
 	return buf.Bytes()
 }
 
+// ReadN reads exactly n bytes. The buffer grows as data arrives, so an absurd
+// length found in a corrupt file costs an error instead of an allocation of
+// that size.
+func ReadN(r io.Reader, n uint64) ([]byte, error) {
+	if n > math.MaxInt64 {
+		return nil, io.ErrUnexpectedEOF
+	}
+
+	buf := bytes.NewBuffer([]byte{})
+	_, err := io.CopyN(buf, r, int64(n))
+	return buf.Bytes(), err
+}
+
 // ReadBytesArray first reads the length of the byte array, then reads in a
 // buffer of that length
 func ReadBytesArray(r io.Reader) ([]byte, int, error) {
-	len, bytesRead, err := ReadUvarint(r)
+	length, bytesRead, err := ReadUvarint(r)
 	if err != nil {
 		return nil, bytesRead, err
 	}
 
-	out := make([]byte, len)
-	read, err := io.ReadFull(r, out)
-	if err != nil && err != io.EOF {
-		return nil, read + bytesRead, err
+	out, err := ReadN(r, length)
+	bytesRead += len(out)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
 	}
-
-	if read != int(len) {
-		return nil, read + bytesRead, io.ErrUnexpectedEOF
+	if err != nil {
+		return nil, bytesRead, err
 	}
 
-	return out, read + bytesRead, nil
+	return out, bytesRead, nil
 }
 
 // func ArrayOfByteArraysToBytes(b [][]byte) []byte {
diff --git a/internal/io/binary/string.go b/internal/io/binary/string.go
index 84141ad..0aad2fb 100644
--- a/internal/io/binary/string.go
+++ b/internal/io/binary/string.go
@@ -16,18 +16,18 @@ func StringToBytes(str string) []byte {
 }
 
 func ReadString(r io.Reader) (string, int, error) {
-	len, bytesRead, err := ReadUvarint(r)
+	length, bytesRead, err := ReadUvarint(r)
 	if err != nil {
 		return "", bytesRead, err
 	}
 
-	strBuffer := make([]byte, len)
-	moreBytes, err := io.ReadFull(r, strBuffer)
+	strBuffer, err := ReadN(r, length)
+	bytesRead += len(strBuffer)
 	if err != nil {
-		return "", bytesRead + moreBytes, err
+		return "", bytesRead, err
 	}
 
-	return string(strBuffer), bytesRead + moreBytes, nil
+	return string(strBuffer), bytesRead, nil
 }
 
 func StringArrayToBytes(strs []string) []byte {
@@ -44,19 +44,19 @@ func StringArrayToBytes(strs []string) []byte {
 }
 
 func ReadStringArray(r io.Reader) ([]string, int, error) {
-	len, bytesRead, err := ReadUvarint(r)
+	length, bytesRead, err := ReadUvarint(r)
 	if err != nil {
 		return nil, bytesRead, err
 	}
 
-	out := make([]string, len)
-	for i := range out {
+	out := make([]string, 0)
+	for i := uint64(0); i < length; i++ {
 		str, read, err := ReadString(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = str
+		out = append(out, str)
 	}
 
 	return out, bytesRead, nil
diff --git a/internal/io/binary/uint.go b/internal/io/binary/uint.go
index 2b13219..8642b8a 100644
--- a/internal/io/binary/uint.go
+++ b/internal/io/binary/uint.go
@@ -21,19 +21,19 @@ func UvarintArrayToBytes(strs []uint) []byte {
 }
 
 func ReadUvarIntArray(r io.Reader) ([]uint, int, error) {
-	len, bytesRead, err := ReadUvarint(r)
+	length, bytesRead, err := ReadUvarint(r)
 	if err != nil {
 		return nil, bytesRead, err
 	}
 
-	out := make([]uint, len)
-	for i := range out {
+	out := make([]uint, 0)
+	for i := uint64(0); i < length; i++ {
 		str, read, err := ReadUvarint(r)
 		bytesRead += read
 		if err != nil {
 			return nil, bytesRead, err
 		}
-		out[i] = uint(str)
+		out = append(out, uint(str))
 	}
 
 	return out, bytesRead, nil
-- 
2.43.0


From 9afc096269ed0aa599b75f71398a2c980cce7499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 04/12] fix: a malformed recording body is reported instead of
 partially decoded or panicking

---
 format/io/reader.go | 120 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 94 insertions(+), 26 deletions(-)

diff --git a/format/io/reader.go b/format/io/reader.go
index de1dfad..6b6e91e 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -78,6 +78,9 @@ func readRecordingMetadataBlock(in io.Reader, metadataKeys []string) (metadata.B
 	}
 
 	for _, key := range keyIndecies {
+		if key >= uint(len(metadataKeys)) {
+			return metadata.EmptyBlock(), fmt.Errorf("metadata key index %d out of range", key)
+		}
 		propMapping[metadataKeys[key]], err = metadata.ReadProperty(in)
 		if err != nil {
 			return metadata.EmptyBlock(), err
@@ -93,9 +96,15 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// Read Recording id
 	recordingID, _, err := binary.ReadString(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// Read Recording name
 	recordingName, _, err := binary.ReadString(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// Read Recording metadata
 	recordingMetadataBlock, err := readRecordingMetadataBlock(er, metadataKeys)
@@ -105,61 +114,120 @@ func recursiveBuidRecordings(inStream io.Reader, metadataKeys []string, encoders
 
 	// read num streams
 	numStreams, _, err := binary.ReadUvarint(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
 	// read streams
-	allStreams := make([]format.CaptureCollection, numStreams)
-	for i := 0; i < int(numStreams); i++ {
-		encoderIndex, _, _ := binary.ReadUvarint(er)
+	allStreams := make([]format.CaptureCollection, 0)
+	for i := uint64(0); i < numStreams; i++ {
+		encoderIndex, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		if encoderIndex >= uint64(len(encoders)) {
+			return nil, er.TotalRead(), fmt.Errorf("encoder index %d out of range", encoderIndex)
+		}
 
-		streamName, _, _ := binary.ReadString(er)
+		streamName, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		times, _ := decodeTime(er)
-		captureBody, _, _ := binary.ReadBytesArray(er)
-		stream, _ := encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
-		allStreams[i] = stream
+		times, err := decodeTime(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+
+		captureBody, _, err := binary.ReadBytesArray(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+
+		stream, err := encoders[encoderIndex].Decode(streamName, headers[encoderIndex], captureBody, times)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+		allStreams = append(allStreams, stream)
 	}
 
 	// read binary references
 	numBinaryReferences, _, err := binary.ReadUvarint(er)
-	binReferences := make([]format.BinaryReference, numBinaryReferences)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
+
+	binReferences := make([]format.BinaryReference, 0)
+	for i := uint64(0); i < numBinaryReferences; i++ {
+		name, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+
+		uri, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+
+		refSize, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-	for i := 0; i < int(numBinaryReferences); i++ {
-		name, _, _ := binary.ReadString(er)
-		uri, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
 		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+		block, err := readRecordingMetadataBlock(er, metadataKeys)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		binReferences[i] = NewBinaryReference(name, uri, refSize, block)
+		binReferences = append(binReferences, NewBinaryReference(name, uri, refSize, block))
 	}
 
 	// read binaries
 	numBinaries, _, err := binary.ReadUvarint(er)
-	binaries := make([]format.Binary, numBinaries)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
-	for i := 0; i < int(numBinaries); i++ {
-		name, _, _ := binary.ReadString(er)
-		refSize, _, _ := binary.ReadUvarint(er)
+	binaries := make([]format.Binary, 0)
+	for i := uint64(0); i < numBinaries; i++ {
+		name, _, err := binary.ReadString(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
+
+		refSize, _, err := binary.ReadUvarint(er)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
 		// Read Recording metadata
-		block, _ := readRecordingMetadataBlock(er, metadataKeys)
+		block, err := readRecordingMetadataBlock(er, metadataKeys)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		allData := make([]byte, refSize)
-		io.ReadFull(er, allData)
+		allData, err := binary.ReadN(er, refSize)
+		if err != nil {
+			return nil, er.TotalRead(), err
+		}
 
-		binaries[i] = NewBinary(name, allData, block)
+		binaries = append(binaries, NewBinary(name, allData, block))
 	}
 
 	// read num recordings
 	numRecordings, _, err := binary.ReadUvarint(er)
+	if err != nil {
+		return nil, er.TotalRead(), err
+	}
 
-	allChildRecordings := make([]format.Recording, numRecordings)
-	for i := 0; i < int(numRecordings); i++ {
+	allChildRecordings := make([]format.Recording, 0)
+	for i := uint64(0); i < numRecordings; i++ {
 		childRec, _, err := recursiveBuidRecordings(er, metadataKeys, encoders, headers)
 		if err != nil {
 			return nil, er.TotalRead(), err
 		}
-		allChildRecordings[i] = childRec
+		allChildRecordings = append(allChildRecordings, childRec)
 	}
 
 	return format.NewRecording(recordingID, recordingName, allStreams, allChildRecordings, recordingMetadataBlock, binaries, binReferences), er.TotalRead(), er.Error()
-- 
2.43.0


From 46f3e30459eff62eb784dee3beb83d9dda42fb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 05/12] fix: a destination failing inside an embedded binary is
 an error, not a panic

---
 format/io/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/io/writer.go b/format/io/writer.go
index 2d360f6..c064785 100644
--- a/format/io/writer.go
+++ b/format/io/writer.go
@@ -304,7 +304,10 @@ func recurseRecordingToBytes(out io.Writer, recording format.Recording, keyMappi
 
 		writeMetadata(ew, keyMappingToIndex, bin.Metadata())
 
-		actualbinaryWritten, _ := io.Copy(ew, bin.Data())
+		actualbinaryWritten, err := io.Copy(ew, bin.Data())
+		if err != nil {
+			return ew.TotalWritten(), -1, err
+		}
 		if actualbinaryWritten != int64(bin.Size()) {
 			panic("Binary data written was larger than size in signature")
 		}
-- 
2.43.0


From e93f1bf6e1f20adbcc82ffffbc076c48b03b2fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 06/12] fix: out-of-range indices in enum and event data are
 errors, not panics

---
 format/encoding/enum/enum.go   | 14 ++++++++++++--
 format/encoding/event/event.go | 12 ++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/format/encoding/enum/enum.go b/format/encoding/enum/enum.go
index b567d01..7f56a74 100644
--- a/format/encoding/enum/enum.go
+++ b/format/encoding/enum/enum.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/enum"
@@ -86,16 +87,25 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 	reader := rapbinary.NewErrReader(bytes.NewBuffer(streamData))
 
-	enumMemberIndexes, _, _ := rapbinary.ReadUvarIntArray(reader)
+	enumMemberIndexes, _, err := rapbinary.ReadUvarIntArray(reader)
+	if err != nil {
+		return nil, err
+	}
 
 	enumMembers := make([]string, len(enumMemberIndexes))
 	for i, indeces := range enumMemberIndexes {
+		if indeces >= uint(len(allEnumMembers)) {
+			return nil, fmt.Errorf("enum member index %d out of range", indeces)
+		}
 		enumMembers[i] = allEnumMembers[indeces]
 	}
 
 	captures := make([]enum.Capture, len(times))
 	for i := 0; i < len(times); i++ {
-		value, _ := binary.ReadUvarint(reader)
+		value, err := binary.ReadUvarint(reader)
+		if err != nil {
+			return nil, err
+		}
 		captures[i] = enum.NewCapture(times[i], int(value))
 	}
 
diff --git a/format/encoding/event/event.go b/format/encoding/event/event.go
index 8688908..505e181 100644
--- a/format/encoding/event/event.go
+++ b/format/encoding/event/event.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/collection/event"
@@ -93,6 +94,9 @@ func (p Encoder) Encode(streams []format.CaptureCollection) ([]byte, [][]byte, e
 func readHeader(header []byte) (names []string, metadataKeys []string, err error) {
 	headerReader := bytes.NewBuffer(header)
 	names, _, err = rapbinary.ReadStringArray(headerReader)
+	if err != nil {
+		return
+	}
 	metadataKeys, _, err = rapbinary.ReadStringArray(headerReader)
 	return
 }
@@ -112,6 +116,10 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 			return nil, err
 		}
 
+		if eventNameIndex >= uint64(len(eventNames)) {
+			return nil, fmt.Errorf("event name index %d out of range", eventNameIndex)
+		}
+
 		metadataIndeces, _, err := rapbinary.ReadUvarIntArray(buf)
 		if err != nil {
 			return nil, err
@@ -119,6 +127,10 @@ func (p Encoder) Decode(name string, header []byte, streamData []byte, times []f
 
 		block := make(map[string]metadata.Property)
 		for metadataIndex := 0; metadataIndex < len(metadataIndeces); metadataIndex++ {
+			if metadataIndeces[metadataIndex] >= uint(len(metadataKeys)) {
+				return nil, fmt.Errorf("event metadata key index %d out of range", metadataIndeces[metadataIndex])
+			}
+
 			prop, err := metadata.ReadProperty(buf)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From e905f0e8787e6cbd6d505ab50c64ce3899b2232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 07/12] fix: JSON metadata no longer panics, drops values or
 builds arrays that cannot be read back

---
 format/metadata/property.go |  8 +---
 format/metadata/utils.go    | 92 +++++++++++++++++++++++++------------
 format/parsing/json.go      |  5 +-
 3 files changed, 69 insertions(+), 36 deletions(-)

diff --git a/format/metadata/property.go b/format/metadata/property.go
index a61b5b4..708e3c1 100644
--- a/format/metadata/property.go
+++ b/format/metadata/property.go
@@ -517,15 +517,11 @@ func (mp *MetadataProperty) UnmarshalJSON(b []byte) error {
 	if err := json.Unmarshal(b, &data); err != nil {
 		return err
 	}
-	prop, err := getProperties(data)
+	block, err := getBlock(data)
 	if err != nil {
 		return err
 	}
-	newMp, ok := prop.(MetadataProperty)
-	if !ok {
-		return errors.New("unable to unmarshal MetadataProperty")
-	}
-	mp.block.mapping = newMp.block.mapping
+	mp.block.mapping = block.mapping
 	return nil
 }
 
diff --git a/format/metadata/utils.go b/format/metadata/utils.go
index c2aceaa..a9ab122 100644
--- a/format/metadata/utils.go
+++ b/format/metadata/utils.go
@@ -3,37 +3,79 @@ package metadata
 import (
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"math"
 	"strings"
 	"time"
 )
 
+var errMixedArray = errors.New("all elements of a metadata array must be of the same, non-array, type")
+
+// uniformArray builds an array property from elements that share a type. An
+// array of both whole and fractional numbers becomes an array of floats.
+func uniformArray(props []Property) (Property, error) {
+	baseCode := props[0].Code()
+	for _, prop := range props {
+		if _, isFloat := prop.(Float32Property); isFloat && baseCode == 1 {
+			baseCode = prop.Code()
+		}
+	}
+
+	for i, prop := range props {
+		if intProp, isInt := prop.(Int32Property); isInt && baseCode == 2 {
+			props[i] = NewFloat32Property(float32(intProp.i))
+		}
+		if props[i].Code() != baseCode || baseCode > 12 {
+			return nil, errMixedArray
+		}
+	}
+	return newArrayProperty(baseCode, props), nil
+}
+
+func getBlock(data map[string]interface{}) (Block, error) {
+	props := make(map[string]Property)
+	for key, val := range data {
+		np, err := getProperties(val)
+		if err != nil {
+			return EmptyBlock(), err
+		}
+		props[key] = np
+	}
+	return NewBlock(props), nil
+}
+
 func getProperties(data interface{}) (Property, error) {
 	switch d := data.(type) {
 	case map[string]interface{}:
 		x, foundX := d["x"]
 		y, foundY := d["y"]
 		z, foundZ := d["z"]
-		if len(d) == 2 && foundX && foundY {
-			return NewVector2Property(x.(float64), y.(float64)), nil
+		xVal, xIsNum := x.(float64)
+		yVal, yIsNum := y.(float64)
+		zVal, zIsNum := z.(float64)
+		if len(d) == 2 && foundX && foundY && xIsNum && yIsNum {
+			return NewVector2Property(xVal, yVal), nil
 		}
-		if len(d) == 3 && foundX && foundY && foundZ {
-			return NewVector3Property(x.(float64), y.(float64), z.(float64)), nil
+		if len(d) == 3 && foundX && foundY && foundZ && xIsNum && yIsNum && zIsNum {
+			return NewVector3Property(xVal, yVal, zVal), nil
 		}
-		nestedProps := make(map[string]Property)
-		for key, val := range d {
-			np, err := getProperties(val)
-			if err != nil {
-				return nil, err
-			}
-			nestedProps[key] = np
+		block, err := getBlock(d)
+		if err != nil {
+			return nil, err
 		}
-		return NewMetadataProperty(NewBlock(nestedProps)), nil
+		return NewMetadataProperty(block), nil
 	case []interface{}:
+		if len(d) == 0 {
+			return NewStringArrayProperty(nil), nil
+		}
 		if _, ok := d[0].(bool); ok {
 			bools := make([]bool, 0, len(d))
 			for _, item := range d {
-				b, _ := item.(bool)
+				b, isBool := item.(bool)
+				if !isBool {
+					return nil, errMixedArray
+				}
 				bools = append(bools, b)
 			}
 			return NewBoolArrayProperty(bools), nil
@@ -46,21 +88,17 @@ func getProperties(data interface{}) (Property, error) {
 			}
 			props = append(props, propItem)
 		}
-		return ArrayProperty{props: props, originalBaseCode: props[0].Code()}, nil
+		return uniformArray(props)
 	case string:
 		if strings.HasPrefix(d, HEX_PREFIX) && len(d) == 4 {
-			var p ByteProperty
-			if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
-				return nil, err
+			if b, err := hex.DecodeString(strings.TrimPrefix(d, HEX_PREFIX)); err == nil {
+				return NewByteProperty(b[0]), nil
 			}
-			return p, nil
 		}
 		if strings.HasPrefix(d, HEX_PREFIX) {
-			b, err := hex.DecodeString(strings.TrimPrefix(d, HEX_PREFIX))
-			if err != nil {
-				return nil, err
+			if b, err := hex.DecodeString(strings.TrimPrefix(d, HEX_PREFIX)); err == nil {
+				return NewBinaryArrayProperty(b), nil
 			}
-			return NewBinaryArrayProperty(b), nil
 		}
 		if _, err := time.Parse(time.RFC3339Nano, d); err == nil {
 			var p TimeProperty
@@ -69,13 +107,9 @@ func getProperties(data interface{}) (Property, error) {
 			}
 			return p, nil
 		}
-		var p StringProperty
-		if err := json.Unmarshal([]byte(fmt.Sprintf(`"%v"`, d)), &p); err != nil {
-			return nil, err
-		}
-		return p, nil
+		return NewStringProperty(d), nil
 	case float64:
-		if d == float64(int64(d)) {
+		if d >= math.MinInt32 && d <= math.MaxInt32 && d == math.Trunc(d) {
 			var p Int32Property
 			if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
 				return nil, err
@@ -94,5 +128,5 @@ func getProperties(data interface{}) (Property, error) {
 		}
 		return p, nil
 	}
-	return nil, nil
+	return nil, fmt.Errorf("unsupported metadata value: %v", data)
 }
diff --git a/format/parsing/json.go b/format/parsing/json.go
index 5a6c901..1edcb79 100644
--- a/format/parsing/json.go
+++ b/format/parsing/json.go
@@ -37,7 +37,10 @@ func parseMetadata(jsonObj *gabs.Container) (metadata.Block, error) {
 	}
 
 	resultingMetadata := metadata.NewMetadataProperty(metadata.EmptyBlock())
-	resultingMetadata.UnmarshalJSON([]byte(metadataNode.String()))
+	err = resultingMetadata.UnmarshalJSON([]byte(metadataNode.String()))
+	if err != nil {
+		return metadata.EmptyBlock(), err
+	}
 
 	return resultingMetadata.Block(), nil
 }
-- 
2.43.0


From 01bc53f7e180b37f34c9ac01f2d416d85bf73ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 08/12] fix: CSV without a required column is an error, not a
 panic

---
 cmd/rap-cli/csv.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/rap-cli/csv.go b/cmd/rap-cli/csv.go
index cacc18e..7c6718c 100644
--- a/cmd/rap-cli/csv.go
+++ b/cmd/rap-cli/csv.go
@@ -56,6 +56,19 @@ func RecordingFromCSV(in io.Reader) (format.Recording, error) {
 		}
 	}
 
+	for column, index := range map[string]int{
+		"time": timeIndex,
+		"id":   idIndex,
+		"name": nameIndex,
+		"x":    posXIndex,
+		"y":    posYIndex,
+		"z":    posZIndex,
+	} {
+		if index == -1 {
+			return nil, fmt.Errorf("csv is missing required column: %s", column)
+		}
+	}
+
 	workingData := make(map[string]map[string][]position.Capture)
 
 	for {
-- 
2.43.0


From b25f86d72f0121555d47debdfc4a20f51732d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 09/12] fix: JSON export escapes strings and reports errors
 from sub-recordings

---
 cmd/rap-cli/json.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmd/rap-cli/json.go b/cmd/rap-cli/json.go
index 2139400..1b8e34c 100644
--- a/cmd/rap-cli/json.go
+++ b/cmd/rap-cli/json.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"encoding/json"
 	"fmt"
 	"io"
 	"strings"
@@ -10,6 +11,12 @@ import (
 	"github.com/recolude/rap/format/metadata"
 )
 
+// jsonString quotes and escapes a string so it can be placed in a JSON document.
+func jsonString(str string) string {
+	quoted, _ := json.Marshal(str)
+	return string(quoted)
+}
+
 func toJson(out io.Writer, recording format.Recording, depth int) error {
 	indentationBuilder := strings.Builder{}
 	for i := 0; i < depth; i++ {
@@ -21,10 +28,10 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	fmt.Fprintf(out, "%s{\n", indentation)
 
 	// Write ID
-	fmt.Fprintf(out, "%s\"id\": \"%s\",\n", subIndentation, recording.ID())
+	fmt.Fprintf(out, "%s\"id\": %s,\n", subIndentation, jsonString(recording.ID()))
 
 	// Write Name
-	fmt.Fprintf(out, "%s\"name\": \"%s\",\n", subIndentation, recording.Name())
+	fmt.Fprintf(out, "%s\"name\": %s,\n", subIndentation, jsonString(recording.Name()))
 
 	// Write Metadata
 	metadataJSONData, err := metadata.NewMetadataProperty(recording.Metadata()).MarshalJSON()
@@ -42,8 +49,8 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 	subsubIndentation := subIndentation + "\t"
 	for i, collection := range recording.CaptureCollections() {
 		fmt.Fprintf(out, "%s{\n", subsubIndentation)
-		fmt.Fprintf(out, "%s\t\"name\": \"%s\",\n", subsubIndentation, collection.Name())
-		fmt.Fprintf(out, "%s\t\"signature\" : \"%s\",\n", subsubIndentation, collection.Signature())
+		fmt.Fprintf(out, "%s\t\"name\": %s,\n", subsubIndentation, jsonString(collection.Name()))
+		fmt.Fprintf(out, "%s\t\"signature\" : %s,\n", subsubIndentation, jsonString(collection.Signature()))
 		fmt.Fprintf(out, "%s\t\"count\" : %d", subsubIndentation, collection.Length())
 		if collection.Signature() == "recolude.event" {
 			fmt.Fprintf(out, ",\n%s\t\"captures\": [\n", subsubIndentation)
@@ -59,7 +66,7 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 
 					fmt.Fprintf(out, "%s\t\t{\n", subsubIndentation)
 					fmt.Fprintf(out, "%s\t\t\t\"time\": %f,\n", subsubIndentation, event.Time())
-					fmt.Fprintf(out, "%s\t\t\t\"name\": \"%s\",\n", subsubIndentation, event.Name())
+					fmt.Fprintf(out, "%s\t\t\t\"name\": %s,\n", subsubIndentation, jsonString(event.Name()))
 					fmt.Fprintf(out, "%s\t\t\t\"data\": %s\n", subsubIndentation, string(eventJSONData))
 					fmt.Fprintf(out, "%s\t\t}", subsubIndentation)
 					if capIndex < eventCollection.Length()-1 {
@@ -96,7 +103,10 @@ func toJson(out io.Writer, recording format.Recording, depth int) error {
 		if rec == nil {
 			fmt.Fprintf(out, "null")
 		} else {
-			toJson(out, rec, depth+2)
+			err = toJson(out, rec, depth+2)
+			if err != nil {
+				return err
+			}
 		}
 		if i < len(recording.Recordings())-1 {
 			fmt.Fprintf(out, ",\n")
-- 
2.43.0


From b71226376ba426fa0676567378f33d090d57ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 10/12] fix: absurd size in a version-1 header returns an error
 instead of panicking

---
 internal/io/rapv1/util.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/internal/io/rapv1/util.go b/internal/io/rapv1/util.go
index ea0bac3..8a76b2e 100644
--- a/internal/io/rapv1/util.go
+++ b/internal/io/rapv1/util.go
@@ -17,6 +17,7 @@ import (
 	"github.com/recolude/rap/format/collection/event"
 	"github.com/recolude/rap/format/collection/position"
 	"github.com/recolude/rap/format/metadata"
+	rapbinary "github.com/recolude/rap/internal/io/binary"
 )
 
 func getNumberOfRecordings(file io.Reader) (int, int, error) {
@@ -161,18 +162,13 @@ func ReadRecording(file io.Reader) (format.Recording, int, error) {
 		return nil, bytesRead, fmt.Errorf("Issue reading recording size, read %d bytes", bytesRead)
 	}
 
-	compressedSize := int64(binary.LittleEndian.Uint64(recordingSize))
-	compressedBytes := make([]byte, compressedSize)
-	compressedBytesRead, err := io.ReadFull(file, compressedBytes)
-	bytesRead += compressedBytesRead
+	compressedSize := binary.LittleEndian.Uint64(recordingSize)
+	compressedBytes, err := rapbinary.ReadN(file, compressedSize)
+	bytesRead += len(compressedBytes)
 	if err != nil {
 		return nil, bytesRead, err
 	}
 
-	if int64(compressedBytesRead) != compressedSize {
-		return nil, bytesRead, fmt.Errorf("Issue reading recording size, read %d bytes out of %d", bytesRead, compressedSize)
-	}
-
 	deflateReader := flate.NewReader(bytes.NewReader(compressedBytes))
 
 	uncompresseRecording, err := ioutil.ReadAll(deflateReader)
-- 
2.43.0


From 7a7caf42981e2b32d75b59d70ebe51597411df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 11/12] fix: a compressed file cut inside its end marker is
 rejected

---
 format/io/reader.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/format/io/reader.go b/format/io/reader.go
index 6b6e91e..b54ad9d 100644
--- a/format/io/reader.go
+++ b/format/io/reader.go
@@ -4,6 +4,7 @@ import (
 	"compress/flate"
 	"fmt"
 	"io"
+	"io/ioutil"
 
 	"github.com/recolude/rap/format"
 	"github.com/recolude/rap/format/encoding"
@@ -299,5 +300,13 @@ func (r Reader) Read() (format.Recording, int, error) {
 		return nil, totalBytesRead, err
 	}
 
-	return rec, totalBytesRead, err
+	// The compressed stream carries an end marker after the recording; not
+	// finding it means the file was cut short.
+	if compressedFlag[0] == 1 {
+		if _, err = io.Copy(ioutil.Discard, readcloser); err != nil {
+			return nil, totalBytesRead, err
+		}
+	}
+
+	return rec, totalBytesRead, nil
 }
-- 
2.43.0


From b31aa7ab2d6414d636231712f9ec54062e9334fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 12/12] fix: JSON metadata keeps whole numbers that print with
 an exponent

---
 format/metadata/utils.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/format/metadata/utils.go b/format/metadata/utils.go
index a9ab122..9c347bf 100644
--- a/format/metadata/utils.go
+++ b/format/metadata/utils.go
@@ -110,11 +110,7 @@ func getProperties(data interface{}) (Property, error) {
 		return NewStringProperty(d), nil
 	case float64:
 		if d >= math.MinInt32 && d <= math.MaxInt32 && d == math.Trunc(d) {
-			var p Int32Property
-			if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
-				return nil, err
-			}
-			return p, nil
+			return NewIntProperty(int(d)), nil
 		}
 		var p Float32Property
 		if err := json.Unmarshal([]byte(fmt.Sprintf(`%v`, d)), &p); err != nil {
-- 
2.43.0

