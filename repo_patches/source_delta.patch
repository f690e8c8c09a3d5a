From a0a5e024487115bac2e20637961c932a0841e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 01/57] fix: handle articles that occur several times in a
 project

---
 src/main.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/main.go b/src/main.go
index 1b2010f..ff95049 100644
--- a/src/main.go
+++ b/src/main.go
@@ -342,7 +342,8 @@ func generateBookFromArticles(project *config.Project) {
 	numberOfArticles := len(articles)
 	articleOutputFiles := make([]string, numberOfArticles)
 
-	articleChan := make(chan string, config.Current.WorkerThreads)
+	// Contains indices of the articles (and not their names) since one article might occur multiple times.
+	articleChan := make(chan int, config.Current.WorkerThreads)
 	sigolo.Debugf("Use %d worker threads to process the articles", config.Current.WorkerThreads)
 
 	wikipediaService := wikipedia.NewWikipediaService(
@@ -364,16 +365,10 @@ func generateBookFromArticles(project *config.Project) {
 		sigolo.Debugf("Start worker thread %d", i)
 
 		go func(threadNumber int) {
-			for articleName := range articleChan {
+			for articleNumber := range articleChan {
+				articleName := articles[articleNumber]
 				sigolo.Debugf("Processing article %s on thread %d", articleName, threadNumber)
 
-				articleNumber := 0
-				for ; articleNumber < len(articles); articleNumber++ {
-					if articleName == articles[articleNumber] {
-						break
-					}
-				}
-
 				thisArticleOutputFile := processArticle(articleName, articleNumber+1, numberOfArticles, wikipediaService)
 				articleOutputFiles[articleNumber] = thisArticleOutputFile
 			}
@@ -384,9 +379,9 @@ func generateBookFromArticles(project *config.Project) {
 		}(i)
 	}
 
-	for _, articleName := range articles {
+	for articleNumber, articleName := range articles {
 		sigolo.Debugf("Pass article %s to worker threads", articleName)
-		articleChan <- articleName
+		articleChan <- articleNumber
 	}
 	close(articleChan)
 
-- 
2.43.0


From e4af849ad52c3322bc2de6fc4ec3c9a1f9d6a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 02/57] fix: prevent broken images in cache when an image tool
 fails or gets interrupted

The tools wrote directly into the cache. An incomplete file was then used by all following runs.
---
 src/image/image.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/image/image.go b/src/image/image.go
index 5d75d7f..fefb56d 100644
--- a/src/image/image.go
+++ b/src/image/image.go
@@ -1,7 +1,10 @@
 package image
 
 import (
+	"os"
+	"path/filepath"
 	"strings"
+	"wiki2book/cache"
 	"wiki2book/config"
 	"wiki2book/util"
 
@@ -24,19 +27,34 @@ func NewImageProcessingService() ImageProcessingService {
 func (s *ImageProcessingServiceImpl) ResizeAndCompressImage(imageFilepath string, commandTemplate string) error {
 	sigolo.Tracef("Process image '%s'", imageFilepath)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, imageFilepath)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, imageFilepath)
-
-	err := util.ExecuteCommandWithArgs(commandString, config.Current.CacheDir)
+	err := executeCommandTemplate(commandTemplate, imageFilepath, imageFilepath, config.Current.CacheDir)
 	return errors.Wrapf(err, "Converting image '%s' failed", imageFilepath)
 }
 
 func (s *ImageProcessingServiceImpl) ConvertToPng(inputFile string, pngFile string, commandTemplate string) error {
 	sigolo.Tracef("Convert '%s' to PNG '%s'", inputFile, pngFile)
 
+	err := executeCommandTemplate(commandTemplate, inputFile, pngFile, ".")
+	return errors.Wrapf(err, "Converting image '%s' to PNG failed", inputFile)
+}
+
+// executeCommandTemplate lets the command write its output into the temp folder and moves the result to the output file
+// afterward. This prevents broken files in the cache in case the command fails or gets interrupted while writing.
+func executeCommandTemplate(commandTemplate string, inputFile string, outputFile string, workingDirectory string) error {
+	tempDir, err := os.MkdirTemp(cache.GetTempPath(), "image")
+	if err != nil {
+		return errors.Wrapf(err, "Unable to create temporary directory within '%s'", cache.GetTempPath())
+	}
+	defer os.RemoveAll(tempDir)
+	tempFile := filepath.Join(tempDir, filepath.Base(outputFile))
+
 	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, inputFile)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, pngFile)
+	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, tempFile)
 
-	err := util.ExecuteCommandWithArgs(commandString, ".")
-	return errors.Wrapf(err, "Converting image '%s' to PNG failed", inputFile)
+	err = util.ExecuteCommandWithArgs(commandString, workingDirectory)
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(tempFile, outputFile)
 }
-- 
2.43.0


From 7118777f3c39a4296aca38dce563ba226363cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 03/57] fix: send request body again when retrying a request
 after status code 429

---
 src/http/http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http.go b/src/http/http.go
index 9db145b..909f510 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -135,6 +135,14 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 	var err error
 
 	for {
+		if request.GetBody != nil {
+			// The body is consumed by each try, so a retry needs a fresh one.
+			request.Body, err = request.GetBody()
+			if err != nil {
+				return nil, errors.Wrap(err, fmt.Sprintf("Error creating body of %s request to url %s", request.Method, url))
+			}
+		}
+
 		response, err = d.httpClient.Do(request)
 		if err != nil {
 			return nil, errors.Wrap(err, fmt.Sprintf("Error executing %s request to url %s", request.Method, url))
-- 
2.43.0


From e2010b02f1d738ed7c01acba5ebae12cfc305e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 04/57] fix: do not keep unprocessed image in cache when
 processing it failed

---
 src/wikipedia/wikipedia.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 5737d70..67e4dde 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -183,6 +183,11 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	if freshlyDownloaded && config.Current.CommandTemplateImageProcessing != "" && fileFormatCanBeScaled {
 		err := w.imageProcessingService.ResizeAndCompressImage(outputFilepath, config.Current.CommandTemplateImageProcessing)
 		if err != nil {
+			// Otherwise the next run would consider the unprocessed image as finished.
+			removeErr := util.CurrentFilesystem.Remove(outputFilepath)
+			if removeErr != nil {
+				sigolo.Warnf("Unable to remove unprocessed image '%s': %s", outputFilepath, removeErr.Error())
+			}
 			return err
 		}
 	}
-- 
2.43.0


From a888c38e8d4915ae531029a3e773db426d6e04e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 05/57] fix: convert image again after its outdated source was
 downloaded again

---
 src/wikipedia/wikipedia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 67e4dde..061fbfa 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -165,7 +165,7 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	if commandTemplate != "" {
 		outputPngFilepath := util.GetPngPathForFile(outputFilepath)
 		pngAlreadyExists := util.PathExists(outputPngFilepath)
-		if !pngAlreadyExists {
+		if !pngAlreadyExists || freshlyDownloaded {
 			err := w.imageProcessingService.ConvertToPng(outputFilepath, outputPngFilepath, commandTemplate)
 			if err != nil {
 				return err
-- 
2.43.0


From 46683414779d7d03276cfd46347ee93963e4270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 06/57] fix: correct size calculation and handling of an empty
 cache when evicting files

---
 src/cache/cache.go | 23 ++++++++++++++++++++++-
 src/util/files.go  |  5 +++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 029f44a..a673919 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -26,6 +26,8 @@ const (
 
 var (
 	cacheWriteMutex = &sync.Mutex{}
+
+	errNoFileInCache = errors.New("There are no files in the cache that could be deleted")
 )
 
 func GetFilePathInCache(cacheFolderName string, filename string) string {
@@ -109,6 +111,8 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 		}
 
 		tempFileSizeInBytes := tempFileStat.Size()
+		// The temporary file is part of the cache folder but will be moved and must therefore not be counted twice.
+		cacheSizeInBytes -= tempFileSizeInBytes
 		err = deleteFilesFromCacheIfNeeded(cacheFolderName, filename, tempFileSizeInBytes, cacheSizeInBytes)
 		if err != nil {
 			return outputFilepath, err
@@ -142,7 +146,8 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 	// just be added to the cache, but instead the old file will be replaced. The cache then grows much less in size or
 	// might even shrink (in case the new file is smaller than the old one).
 	var netCacheSizeChangeInBytes = newFileSizeInBytes
-	existingFileSizeInBytes, err := util.CurrentFilesystem.GetSizeInBytes(GetFilePathInCache(cacheFolderName, newFileName))
+	existingFilePath := GetFilePathInCache(cacheFolderName, newFileName)
+	existingFileSizeInBytes, err := util.CurrentFilesystem.GetSizeInBytes(existingFilePath)
 	if err == nil {
 		netCacheSizeChangeInBytes = newFileSizeInBytes - existingFileSizeInBytes
 	}
@@ -158,9 +163,19 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 		} else {
 			sigolo.Fatalf("Unsupported cache eviction strategy '%s'. This is a Bug.", config.Current.CacheEvictionStrategy)
 		}
+		if err == errNoFileInCache {
+			sigolo.Warnf("New file (%s ; %f MB) alone exceeds the max cache size of %f MB.", newFileName, util.ToMB(newFileSizeInBytes), util.ToMB(config.Current.CacheMaxSize))
+			return nil
+		}
 		if err != nil {
 			return err
 		}
+
+		// The existing file itself might have been deleted, it then will not be replaced anymore.
+		_, err = util.CurrentFilesystem.GetSizeInBytes(existingFilePath)
+		if err != nil {
+			netCacheSizeChangeInBytes = newFileSizeInBytes
+		}
 	}
 
 	return nil
@@ -174,6 +189,9 @@ func deleteLargestFileFromCache(cacheSizeInBytes int64) (error, int64) {
 	if err != nil {
 		return errors.Wrap(err, fmt.Sprintf("Unable to determine largest file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
 	}
+	if largestFilePath == "" {
+		return errNoFileInCache, cacheSizeInBytes
+	}
 
 	sigolo.Debugf("Delete largest file from cache: '%s' (%f MB)", largestFilePath, util.ToMB(largestFileSizeInBytes))
 	err = util.CurrentFilesystem.Remove(largestFilePath)
@@ -192,6 +210,9 @@ func deleteLruFileFromCache(cacheSizeInBytes int64) (error, int64) {
 	if err != nil {
 		return errors.Wrap(err, fmt.Sprintf("Unable to determine least recently used file in cache '%s'", config.Current.CacheDir)), cacheSizeInBytes
 	}
+	if lruFilePath == "" {
+		return errNoFileInCache, cacheSizeInBytes
+	}
 
 	sigolo.Debugf("Delete least recently used file from cache: '%s' (%f MB)", lruFilePath, util.ToMB(lruFileSizeInBytes))
 	err = util.CurrentFilesystem.Remove(lruFilePath)
diff --git a/src/util/files.go b/src/util/files.go
index d676673..44ea1a4 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -358,6 +358,11 @@ func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, in
 		return err, math.MinInt64, ""
 	}
 
+	if currentLargestFile == nil {
+		// No file was found
+		return nil, 0, ""
+	}
+
 	return nil, currentLargestFile.Size(), currentLargestFilePath
 }
 
-- 
2.43.0


From 4f6b41b2019f399b1035c4e31a1c15e8e541beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 07/57] fix: evict files also when the cache folder has the
 name of the temporary folder

---
 src/util/files.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/files.go b/src/util/files.go
index 44ea1a4..5e61034 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -329,6 +329,7 @@ func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, in
 	RequireFilePathIsSanitized(path)
 	RequireFilePathIsSanitized(exceptDir)
 
+	rootPath := path
 	var currentLargestFile os.FileInfo
 	var currentLargestFilePath string
 
@@ -345,7 +346,7 @@ func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, in
 				currentLargestFile = file
 				currentLargestFilePath = path
 			}
-		} else if file.Name() == exceptDir {
+		} else if file.Name() == exceptDir && path != rootPath {
 			// The directory for temporary files might be inside the cache folder. This is fine, but we don't want to
 			// count in temporary files then.
 			return filepath.SkipDir
@@ -370,6 +371,7 @@ func (o *OsFilesystem) FindLruFile(path string, exceptDir string) (error, int64,
 	RequireFilePathIsSanitized(path)
 	RequireFilePathIsSanitized(exceptDir)
 
+	rootPath := path
 	var currentLruFilePath string
 	var currentLruFile os.FileInfo
 
@@ -386,7 +388,7 @@ func (o *OsFilesystem) FindLruFile(path string, exceptDir string) (error, int64,
 				currentLruFile = file
 				currentLruFilePath = path
 			}
-		} else if file.Name() == exceptDir {
+		} else if file.Name() == exceptDir && path != rootPath {
 			// The directory for temporary files might be inside the cache folder. This is fine, but we don't want to
 			// count in temporary files then.
 			return filepath.SkipDir
-- 
2.43.0


From 31d3433b205eeed5cb7aac0058573d7de729a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 08/57] fix: keep unclosed wikitext as text instead of crashing

Links, images, references, nowiki areas, tables and imagemaps that are never
closed and images without a file name made the parser panic.
---
 src/parser/cleaner.go   |  4 ++++
 src/parser/image.go     | 25 ++++++++++++++++++++++++-
 src/parser/link.go      |  2 +-
 src/parser/nowiki.go    |  4 ++++
 src/parser/reference.go |  2 ++
 src/parser/table.go     | 23 +++++++++++++++--------
 6 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index a02a8f8..9308b02 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -77,6 +77,10 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 
 		if cursor == "[[" {
 			endIndex := FindCorrespondingCloseToken(content, i+2, "[", "]")
+			if endIndex == -1 || endIndex+2 > len(content) {
+				// Link is never closed -> no link, leave the text as is
+				continue
+			}
 
 			totalLinkContent := content[i+2 : endIndex]
 			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
diff --git a/src/parser/image.go b/src/parser/image.go
index 25926ec..81cd8b5 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -71,6 +71,11 @@ func (t *Tokenizer) escapeImages(content string) string {
 	filename = strings.ReplaceAll(filename, " ", "_")
 	filename = strings.ReplaceAll(filename, "%20", "_")
 
+	if filename == "" {
+		// No file given at all
+		return ""
+	}
+
 	// Make first letter upper case as wikimedia wants it this way:
 	filenameRunes := []rune(filename)
 	filename = strings.ToUpper(string(filenameRunes[0])) + string(filenameRunes[1:])
@@ -178,6 +183,10 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 			if line == "" {
 				// if empty -> delete this line i, the next line contains the image
 				lines = append(lines[:i], lines[i+1:]...)
+				if i >= len(lines) {
+					// No image specified until the end of the content
+					break
+				}
 				line = lines[i]
 			}
 
@@ -200,6 +209,11 @@ func (t *Tokenizer) parseImages(content string) string {
 	for startIndex != nil {
 		// Use the end-index of the match, since it points to the ":" of the "[[File:" match
 		endIndex := FindCorrespondingCloseToken(content, startIndex[1], "[", "]")
+		if endIndex == -1 || endIndex+2 > len(content) {
+			// Image is never closed -> leave the text as is and look for the next image behind it
+			startIndex = findImageStart(content, startIndex[1])
+			continue
+		}
 
 		imageContent := content[startIndex[1]:endIndex]
 		imageContent = t.tokenizeContent(t, imageContent)
@@ -295,8 +309,17 @@ func (t *Tokenizer) parseImages(content string) string {
 		}
 
 		// Find next image
-		startIndex = internalLinkStartRegex.FindStringIndex(content)
+		startIndex = findImageStart(content, startIndex[0])
 	}
 
 	return content
 }
+
+// findImageStart returns the location of the first image start at or behind the given offset or nil if there is none.
+func findImageStart(content string, offset int) []int {
+	location := internalLinkStartRegex.FindStringIndex(content[offset:])
+	if location == nil {
+		return nil
+	}
+	return []int{location[0] + offset, location[1] + offset}
+}
diff --git a/src/parser/link.go b/src/parser/link.go
index 83c24c1..dbbe943 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -90,7 +90,7 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 				continue
 			}
 
-			if linkTarget[0] == ':' {
+			if strings.HasPrefix(linkTarget, ":") {
 				// A link starting with ":" indicates e.g. a link to a category. Because we have no delimiter here, the
 				// link text is the part behind the last ":".
 				linkSegments := strings.SplitN(linkTarget, ":", -1)
diff --git a/src/parser/nowiki.go b/src/parser/nowiki.go
index 47914a2..ca2e8d0 100644
--- a/src/parser/nowiki.go
+++ b/src/parser/nowiki.go
@@ -23,6 +23,10 @@ func (t *Tokenizer) parseNowiki(content string) string {
 
 		if util.EqualsIgnoreCase(cursor, nowikiStart) {
 			endIndex := FindCorrespondingCloseTokenIgnoreCase(content, i+nowikiStartLen, nowikiStart, nowikiEnd)
+			if endIndex == -1 {
+				// Never closed -> leave the text as is
+				continue
+			}
 
 			token := NowikiToken{
 				Content: content[i+nowikiStartLen : endIndex],
diff --git a/src/parser/reference.go b/src/parser/reference.go
index 1dc66db..63a674b 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -70,6 +70,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 		if startEndIndex == -1 {
 			// XML for <ref not closed -> broken wikitext
 			sigolo.Errorf("XML element for reference start '%s' not closed (i.e. missing '%s'). Text around this location: ...%s...", refDefStart, xmlClosing, util.GetTextAround(content, i, 50))
+			continue
 		}
 
 		if referencePlaceholderEndRegex.MatchString(content[i:startEndIndex+1]) || referencePlaceholderShortRegex.MatchString(content[i:startEndIndex+1]) {
@@ -121,6 +122,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 				if refEndIndex == -1 {
 					// No end token found -> probably unsupported wikitext syntax (like nested refs)
 					sigolo.Errorf("No end-part for reference start '%s' found. Text around this location: ...%s...", refDefStart, util.GetTextAround(content, i, 50))
+					continue
 				}
 				refNumberCounterForCurrentGroup, content = t.parseReferenceDefinition(content, i, startEndIndex, refEndIndex, refNumberCounterForCurrentGroup, nameAttributeValue, nameToRefNumberForCurrentGroup, refNumberToContentForCurrentGroup, cursorWithinReferencePlaceholder, refDefLongEndLen)
 			}
diff --git a/src/parser/table.go b/src/parser/table.go
index 9595b5b..8c28185 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -116,6 +116,11 @@ func (t *Tokenizer) tokenizeTable(content string) TableToken {
 		} else if isHeadingStart {
 			rowToken, i = t.tokenizeTableRow(lines, i)
 		} else if isRowStart {
+			if i+1 >= len(lines) {
+				// table is not closed and this (empty) row is the last line
+				break
+			}
+
 			if strings.HasPrefix(lines[i+1], "!") {
 				// this table row is a heading
 				rowToken, i = t.tokenizeTableRow(lines, i+1)
@@ -168,11 +173,12 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 
 		// Collect all normal text rows until the next row or column starts.
 		i++
-		for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
+		for ; i < len(lines); i++ {
+			l := strings.TrimSpace(lines[i])
+			if strings.HasPrefix(l, "|") || strings.HasPrefix(l, "!") {
+				break
+			}
 			line += "\n" + l
-
-			i++
-			l = lines[i]
 		}
 		// Now the index is at the start of the next column/row -> reduce by 1 for later parsing.
 		i -= 1
@@ -217,11 +223,12 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 
 	// collect all lines from this caption
 	i++
-	for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
+	for ; i < len(lines); i++ {
+		l := strings.TrimSpace(lines[i])
+		if strings.HasPrefix(l, "|") || strings.HasPrefix(l, "!") {
+			break
+		}
 		captionLines += "\n" + l
-
-		i++
-		l = strings.TrimSpace(lines[i])
 	}
 
 	captionLines = strings.TrimPrefix(captionLines, "|+")
-- 
2.43.0


From 441a041d568c6b8f1f1bbd6f93f9fdb18d0d791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 09/57] fix: do not treat every pair of dollar signs as a token

An article containing e.g. 'US$$' next to any token crashed or aborted.
---
 src/generator/expand.go | 66 ++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index a3b0e54..c33a8c2 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -71,7 +71,7 @@ func expand(expansionHandler ExpansionHandler, content interface{}) (string, err
 func expandString(g ExpansionHandler, content string) (string, error) {
 	content = g.expandMarker(content)
 
-	matches := tokenRegex.FindAllString(content, -1)
+	matches := tokenRegex.FindAllStringIndex(content, -1)
 
 	if len(matches) == 0 {
 		// no token in content
@@ -79,51 +79,37 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 	}
 
 	// Index where pure text starts (e.g. after a token)
-	textSegmentStartIndex := -1
+	textSegmentStartIndex := 0
 	newContent := ""
 
-	for i := 0; i < len(content); i++ {
-		if i < len(content)-1 && content[i:i+2] == "$$" {
-			// We found a token start -> Expand content before token and the token itself
-
-			// 1. Expand normal text before token (if there is any text before the token)
-			if textSegmentStartIndex != -1 {
-				pureTextSegment := content[textSegmentStartIndex:i]
-				expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-				newContent += expandedPureTextSegment
-			}
-
-			// 2. Expand token and its content
-			tokenEndIndex := parser.FindCorrespondingCloseToken(content, i+2, "$$", "$$")
-			tokenKey := content[i+2 : tokenEndIndex]
-
-			tokenContent, hasTokenKey := g.getToken("$$" + tokenKey + "$$")
-			if !hasTokenKey {
-				return "", errors.Errorf("Token key %s not found in token map", tokenKey)
-			}
-			sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
-
-			expandedContent, err := expand(g, tokenContent)
-			if err != nil {
-				return "", err
-			}
-
-			newContent += expandedContent
-
-			// Skip the token with its ending and continue after it. Only "+1" because the loop ads another "+1" so that the whole token ending of length 2 is skipped.
-			i = tokenEndIndex + 1
-			textSegmentStartIndex = -1
-		} else if textSegmentStartIndex == -1 {
-			// When index is unset -> set it and therefore remember the start of a pure text segment
-			textSegmentStartIndex = i
+	for _, match := range matches {
+		// 1. Expand normal text before token (if there is any text before the token)
+		if textSegmentStartIndex < match[0] {
+			newContent += g.expandSimpleString(content[textSegmentStartIndex:match[0]])
 		}
+
+		// 2. Expand token and its content
+		tokenKey := content[match[0]:match[1]]
+
+		tokenContent, hasTokenKey := g.getToken(tokenKey)
+		if !hasTokenKey {
+			return "", errors.Errorf("Token key %s not found in token map", tokenKey)
+		}
+		sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
+
+		expandedContent, err := expand(g, tokenContent)
+		if err != nil {
+			return "", err
+		}
+
+		newContent += expandedContent
+
+		textSegmentStartIndex = match[1]
 	}
 
 	// Expand the part behind the last token (if it exists)
-	if textSegmentStartIndex != -1 {
-		pureTextSegment := content[textSegmentStartIndex:]
-		expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-		newContent += expandedPureTextSegment
+	if textSegmentStartIndex < len(content) {
+		newContent += g.expandSimpleString(content[textSegmentStartIndex:])
 	}
 
 	return newContent, nil
-- 
2.43.0


From 42d36a2cabaa2432e8927e14f0cabbfc73edc83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 10/57] fix: do not search forever for altered template
 placeholders

Templates like {{uc:{{foo}}}} change the placeholder of the inner template,
which then never gets replaced and the search for it never ended.
---
 src/parser/template.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/template.go b/src/parser/template.go
index aa5dd2d..a374174 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -35,7 +35,11 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 	// Replace all template placeholders with the actual content until no placeholders are unresolved. This is not very
 	// elegant or fast but due to the nesting a simple and working approach.
 	sigolo.Debugf("Replace %d template placeholder with evaluated content", len(placeholderToContent))
-	for strings.Contains(content, templatePlaceholderPrefix) {
+	replacedPlaceholder := true
+	for replacedPlaceholder && strings.Contains(content, templatePlaceholderPrefix) {
+		// Without any replacement in a run, the remaining text just looks like a placeholder (e.g. because a template
+		// changed its parameter to upper case) and would never vanish.
+		replacedPlaceholder = false
 		sigolo.Tracef("Check content for template placeholders (%d remain)", len(placeholderToContent))
 
 		for key, template := range placeholderToContent {
@@ -45,6 +49,7 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 
 			if containsPlaceholder {
 				content = strings.ReplaceAll(content, placeholder, template)
+				replacedPlaceholder = true
 				sigolo.Tracef("Replaced template placeholder %s in content", key)
 			}
 		}
-- 
2.43.0


From 0296b81bb061967c488ac1682d8b17b7a4e21209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 11/57] fix: no exponential search for bold and italic text

Each state of the search is explored at most once. Long sequences of
apostrophes blocked the program practically forever.
---
 src/parser/formatting.go | 42 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/parser/formatting.go b/src/parser/formatting.go
index 4ef7e99..288acc8 100644
--- a/src/parser/formatting.go
+++ b/src/parser/formatting.go
@@ -22,6 +22,24 @@ type BoldItalicStackItem struct {
 	length   int
 }
 
+// boldItalicState contains everything the further parsing of bold and italic blocks depends on.
+type boldItalicState struct {
+	index        int
+	isBoldOpen   bool
+	isItalicOpen bool
+	hasItems     bool
+	lastItemType BoldItalicStackItemType
+}
+
+func newBoldItalicState(index int, stack []BoldItalicStackItem, isBoldOpen, isItalicOpen bool) boldItalicState {
+	state := boldItalicState{index: index, isBoldOpen: isBoldOpen, isItalicOpen: isItalicOpen}
+	if len(stack) > 0 {
+		state.hasItems = true
+		state.lastItemType = stack[len(stack)-1].itemType
+	}
+	return state
+}
+
 func (t *Tokenizer) parseBoldAndItalic(content string) string {
 	var success bool
 	index := 0
@@ -43,12 +61,12 @@ func (t *Tokenizer) parseBoldAndItalic(content string) string {
 
 		var stack []BoldItalicStackItem
 		// First try everything without repairing crossovers. Crossovers can happen even if a normal solution is possible.
-		success, stack = t.tokenizeBoldAndItalic(content, index, stack, false, false, false)
+		success, stack = t.tokenizeBoldAndItalic(content, index, stack, map[boldItalicState]bool{}, false, false, false)
 		if !success {
 			sigolo.Warnf("Unable to parse bold and italic tags WITHOUT repairing crossovers in: %s. I'll try it again with repairing crossovers enabled.", util.TruncString(content))
 			stack = []BoldItalicStackItem{}
 			// Okay, not try to repair crossovers.
-			success, stack = t.tokenizeBoldAndItalic(content, index, stack, true, false, false)
+			success, stack = t.tokenizeBoldAndItalic(content, index, stack, map[boldItalicState]bool{}, true, false, false)
 
 			if !success {
 				sigolo.Warnf("Unable to parse bold and italic tags EVEN WITH repairing crossovers in: %s. I'll just use the raw content.", util.TruncString(content))
@@ -93,7 +111,21 @@ func (t *Tokenizer) parseBoldAndItalic(content string) string {
 
 // tokenizeBoldAndItalic takes the content, an index in that content, if this index is currently in a bold or italic
 // block and a stack to parse the content for bold and italic blocks. It returns a success-bool and the resulting stack.
-func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []BoldItalicStackItem, repairCrossovers, isBoldOpen, isItalicOpen bool) (bool, []BoldItalicStackItem) {
+// States from which parsing is known to fail are stored in failedStates, so that they are not explored again and again.
+func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []BoldItalicStackItem, failedStates map[boldItalicState]bool, repairCrossovers, isBoldOpen, isItalicOpen bool) (bool, []BoldItalicStackItem) {
+	state := newBoldItalicState(index, stack, isBoldOpen, isItalicOpen)
+	if failedStates[state] {
+		return false, stack
+	}
+
+	success, newStack := t.tryTokenizeBoldAndItalic(content, index, stack, failedStates, repairCrossovers, isBoldOpen, isItalicOpen)
+	if !success {
+		failedStates[state] = true
+	}
+	return success, newStack
+}
+
+func (t *Tokenizer) tryTokenizeBoldAndItalic(content string, index int, stack []BoldItalicStackItem, failedStates map[boldItalicState]bool, repairCrossovers, isBoldOpen, isItalicOpen bool) (bool, []BoldItalicStackItem) {
 	// The idea of this approach:
 	// Find the next possible match for a start/stop of an italic/bold block. Put that item on the stack (e.g.
 	// BOLD_START), increase the index and recursively move on to further parse the content. Whenever something's
@@ -136,7 +168,7 @@ func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []Bol
 			}
 
 			if continueParsingAsItalicToken {
-				success, newStack := t.tokenizeBoldAndItalic(content, index+2, newStack, repairCrossovers, isBoldOpen, !isItalicOpen)
+				success, newStack := t.tokenizeBoldAndItalic(content, index+2, newStack, failedStates, repairCrossovers, isBoldOpen, !isItalicOpen)
 
 				if success {
 					// path went well -> end recursion and return
@@ -171,7 +203,7 @@ func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []Bol
 				}
 			}
 
-			success, newStack := t.tokenizeBoldAndItalic(content, index+3, newStack, repairCrossovers, !isBoldOpen, isItalicOpen)
+			success, newStack := t.tokenizeBoldAndItalic(content, index+3, newStack, failedStates, repairCrossovers, !isBoldOpen, isItalicOpen)
 
 			if success {
 				// path went well -> end recursion and return
-- 
2.43.0


From 163eb60525e58c8c34b8f3da05e4cfee5919f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 12/57] fix: keep links with a colon in their text or section

Only the target of a link has prefixes; a link like [[Film|Episode IV: A new hope]]
was removed including its text.
---
 src/parser/cleaner.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 9308b02..6e47b6b 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -83,7 +83,13 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 			}
 
 			totalLinkContent := content[i+2 : endIndex]
-			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
+
+			// Only the link target can have prefixes. Colons in the section or text of a link are just normal characters.
+			linkTarget := totalLinkContent
+			if endOfTarget := strings.IndexAny(linkTarget, "|#"); endOfTarget != -1 {
+				linkTarget = linkTarget[:endOfTarget]
+			}
+			linkSegments := strings.SplitN(linkTarget, ":", -1)
 			allPrefixes := linkSegments[:len(linkSegments)-1]
 
 			// It's possible to link categories with a leading colon, e.g. [[:SomeCategory:SomeLinkText]]. They should
-- 
2.43.0


From 9eed3a4274cdaf8d4ba224495981daf86f35f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 13/57] fix: find the end of images with unbalanced brackets in
 their caption

---
 src/parser/image.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 81cd8b5..cd58994 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -209,7 +209,15 @@ func (t *Tokenizer) parseImages(content string) string {
 	for startIndex != nil {
 		// Use the end-index of the match, since it points to the ":" of the "[[File:" match
 		endIndex := FindCorrespondingCloseToken(content, startIndex[1], "[", "]")
-		if endIndex == -1 || endIndex+2 > len(content) {
+		if endIndex == -1 || !strings.HasPrefix(content[endIndex:], "]]") {
+			// The brackets of the caption are not balanced, e.g. because of a half-open interval
+			endIndex = FindCorrespondingCloseToken(content, startIndex[1], "[[", "]]")
+			if endIndex != -1 && strings.HasPrefix(content[endIndex:], "]]]") {
+				// The first bracket belongs to an external link at the end of the caption
+				endIndex++
+			}
+		}
+		if endIndex == -1 {
 			// Image is never closed -> leave the text as is and look for the next image behind it
 			startIndex = findImageStart(content, startIndex[1])
 			continue
-- 
2.43.0


From ac115d0df6bff215bff07cd015fbfc838bae7afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 14/57] fix: keep lines that only start and end with bold text

---
 src/parser/cleaner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 6e47b6b..45098a2 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -306,7 +306,7 @@ func (t *Tokenizer) walkSection(i int, lines []string, previousHeadingDepth int)
 func (t *Tokenizer) headingDepth(line string) int {
 	if !strings.HasPrefix(line, "=") || !strings.HasSuffix(line, "=") {
 		// No real heading. But maybe a semi-heading (line with only bold text)?
-		if strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''") {
+		if strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''") && !strings.Contains(strings.Trim(line, "'"), "'''") {
 			return semiHeadingDepth
 		}
 		// Not even semi-heading -> No heading at all
-- 
2.43.0


From 5e26174336cae471610d068752194f45bd2b53a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 15/57] fix: number references in headings together with all
 others

---
 src/parser/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 8220842..8b7abea 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -142,8 +142,8 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseNowiki(content)
 
 		content = t.parseBoldAndItalic(content)
-		content = t.parseHeadings(content)
 		content = t.parseReferences(content)
+		content = t.parseHeadings(content)
 		content = t.parseInternalLinks(content)
 
 		content = t.parseGalleries(content)
-- 
2.43.0


From f5144d98efe583ac086774741b6b45dcbac5b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 16/57] fix: treat formulas and nowiki areas verbatim

---
 src/parser/cleaner.go   |  8 +++++---
 src/parser/pattern.go   |  5 +++++
 src/parser/template.go  | 13 +++++++------
 src/parser/tokenizer.go |  4 +++-
 src/parser/verbatim.go  | 42 +++++++++++++++++++++++++++++++++++++++++
 5 files changed, 62 insertions(+), 10 deletions(-)
 create mode 100644 src/parser/verbatim.go

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 45098a2..e8c57dc 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -137,12 +137,13 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 	trailingTemplates := util.AllToLower(config.Current.TrailingTemplates)
 	var foundTrailingTemplates []string
 
+	maskedContent := maskVerbatim(content)
 	for i := 0; i < len(content)-1; i++ {
-		cursor := content[i : i+2]
+		cursor := maskedContent[i : i+2]
 
 		if cursor == "{{" {
 			// Get the index on which the template is closed
-			closedTemplateIndex := FindCorrespondingCloseToken(content, i+2, "{{", "}}")
+			closedTemplateIndex := FindCorrespondingCloseToken(maskedContent, i+2, "{{", "}}")
 			if closedTemplateIndex == -1 {
 				// no closing tag found -> move on in the normal text
 				continue
@@ -160,7 +161,8 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 
 			if util.HasAnyPrefix(templateName, ignoreTemplates...) || util.HasAnyPrefix(templateName, trailingTemplates...) {
 				// Replace the template with an empty string, since it should be ignored.
-				content = strings.Replace(content, templateText, "", 1)
+				content = content[:i] + content[closedTemplateIndex+2:]
+				maskedContent = maskedContent[:i] + maskedContent[closedTemplateIndex+2:]
 
 				// Collect templates that should be moved to the bottom of the article
 				if util.Contains(trailingTemplates, templateName) {
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 9e991e5..86abd29 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -63,3 +63,8 @@ var (
 var (
 	mathRegex = regexp.MustCompile(`<math.*?>((.|\n|\r)*?)</math>`)
 )
+
+// Parts in which no wikitext is interpreted
+var (
+	verbatimRegex = regexp.MustCompile(`(?s)<!--.*?-->|(?i:<nowiki>.*?</nowiki>)|<math(\s[^>]*[^>/])?>.*?</math>`)
+)
diff --git a/src/parser/template.go b/src/parser/template.go
index a374174..ed7bd1a 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -61,20 +61,20 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 
 func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToContent map[string]string) (string, error) {
 	sigolo.Tracef("Replace template tokens in content '%s'", util.TruncString(content))
+	maskedContent := maskVerbatim(content)
 	for i := 0; i < len(content)-templateEndTokenLen; i++ {
-		cursor := content[i : i+templateStartTokenLen]
+		cursor := maskedContent[i : i+templateStartTokenLen]
 
 		if cursor == templateStartToken {
-			endIndex := FindCorrespondingCloseToken(content, i+templateStartTokenLen, templateStartToken, templateEndToken)
+			endIndex := FindCorrespondingCloseToken(maskedContent, i+templateStartTokenLen, templateStartToken, templateEndToken)
 			if endIndex == -1 {
 				return "", errors.Errorf("Found %s but no corresponding %s. I'll ignore this but something's wrong with the input wikitext!", templateStartToken, templateEndToken)
 			}
 
-			originalTemplateText := content[i : endIndex+templateEndTokenLen]
-			templateText := originalTemplateText
+			templateText := content[i : endIndex+templateEndTokenLen]
 			sigolo.Tracef("Found template: %s", util.TruncString(templateText))
 
-			if strings.Contains(templateText[templateStartTokenLen:], templateStartToken) {
+			if strings.Contains(maskedContent[i+templateStartTokenLen:endIndex], templateStartToken) {
 				// If the template itself contains a template, then proceed to first evaluate the inner template and
 				// to evaluate the outer template in a later run
 				sigolo.Trace("Template contains templates, inner templates are replaced first")
@@ -97,7 +97,8 @@ func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToC
 			// evaluated form because nested templates might lead to too long URLs.
 			placeholderToContent[key] = evaluatedTemplate
 			placeholder := fmt.Sprintf(templatePlaceholderTemplate, key)
-			content = strings.Replace(content, originalTemplateText, placeholder, 1)
+			content = content[:i] + placeholder + content[endIndex+templateEndTokenLen:]
+			maskedContent = maskedContent[:i] + placeholder + maskedContent[endIndex+templateEndTokenLen:]
 		}
 	}
 	sigolo.Tracef("Finished replacing templates in: %s", util.TruncString(content))
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 8b7abea..bfcb08d 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -84,6 +84,7 @@ func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 	var err error
 
 	sigolo.Debugf("Tokenize article '%s' [1/4]: First cleanup", title)
+	content = t.parseVerbatim(content)
 	content, err = t.clean(content)
 	if err != nil {
 		return nil, err
@@ -96,6 +97,7 @@ func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 	}
 
 	sigolo.Debugf("Tokenize article '%s' [3/4]: Second cleanup", title)
+	content = t.parseVerbatim(content)
 	content, err = t.clean(content)
 	if err != nil {
 		return nil, err
@@ -140,6 +142,7 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		originalContent := content
 
 		content = t.parseNowiki(content)
+		content = t.parseMath(content)
 
 		content = t.parseBoldAndItalic(content)
 		content = t.parseReferences(content)
@@ -151,7 +154,6 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseImages(content)
 
 		content = t.parseExternalLinks(content)
-		content = t.parseMath(content)
 		content = t.parseLists(content)
 		content = t.parseTables(content)
 		content = t.parseParagraphs(content)
diff --git a/src/parser/verbatim.go b/src/parser/verbatim.go
new file mode 100644
index 0000000..ade172e
--- /dev/null
+++ b/src/parser/verbatim.go
@@ -0,0 +1,42 @@
+package parser
+
+import (
+	"strings"
+)
+
+// maskVerbatim replaces all comments, nowiki areas and formulas by spaces. No wikitext is interpreted within these parts,
+// so they must not influence the search for e.g. the end of a template. All indices stay the same.
+func maskVerbatim(content string) string {
+	return verbatimRegex.ReplaceAllStringFunc(content, func(match string) string {
+		return strings.Repeat(" ", len(match))
+	})
+}
+
+// parseVerbatim turns all nowiki areas and formulas outside of templates into tokens, which prevents that their content
+// is treated as wikitext. The ones within templates are evaluated together with their template and are handled later.
+func (t *Tokenizer) parseVerbatim(content string) string {
+	maskedContent := maskVerbatim(content)
+	endOfTemplate := 0
+	cursor := 0
+
+	result := ""
+	copiedUntil := 0
+	for _, match := range verbatimRegex.FindAllStringIndex(content, -1) {
+		// Find the end of the last template that starts in front of this match
+		for ; cursor < match[0]; cursor++ {
+			if cursor >= endOfTemplate && strings.HasPrefix(maskedContent[cursor:], templateStartToken) {
+				endIndex := FindCorrespondingCloseToken(maskedContent, cursor+templateStartTokenLen, templateStartToken, templateEndToken)
+				if endIndex != -1 {
+					endOfTemplate = endIndex + templateEndTokenLen
+				}
+			}
+		}
+
+		if match[0] >= endOfTemplate {
+			result += content[copiedUntil:match[0]] + t.parseMath(t.parseNowiki(content[match[0]:match[1]]))
+			copiedUntil = match[1]
+		}
+	}
+
+	return result + content[copiedUntil:]
+}
-- 
2.43.0


From e3313e9594937de526a44cdcbfb44a2f0ac6ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 17/57] fix: do not generate tags out of the text of nowiki
 areas

---
 src/generator/html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index 32b114f..4f88a6c 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -394,7 +394,8 @@ func (g *HtmlGenerator) expandMath(token parser.MathToken) (string, error) {
 }
 
 func (g *HtmlGenerator) expandNowiki(token parser.NowikiToken) string {
-	return token.Content
+	// Entities (e.g. "&nbsp;") are valid within nowiki areas, but tags are just text
+	return strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(token.Content)
 }
 
 // write returns the output path or an error.
-- 
2.43.0


From c573834e273e26cad58813ddcea79c51ac5fea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 18/57] fix: keep text and type of all table entries

---
 src/parser/table.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 8c28185..4cc5ed2 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -94,9 +94,19 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 // tokenizeTable expects content to be all lines of a table.
 func (t *Tokenizer) tokenizeTable(content string) TableToken {
 	// ensure that each entry starts in a new row
-	content = strings.ReplaceAll(content, "||", "\n|")
-	content = strings.ReplaceAll(content, "!!", "\n!")
-	lines := strings.Split(content, "\n")
+	var lines []string
+	for _, line := range strings.Split(content, "\n") {
+		trimmedLine := strings.TrimSpace(line)
+		if strings.HasPrefix(trimmedLine, "!") {
+			line = strings.ReplaceAll(line, "!!", "||")
+			lines = append(lines, strings.Split(strings.ReplaceAll(line, "||", "\n! "), "\n")...)
+		} else if strings.HasPrefix(trimmedLine, "|") {
+			// The space prevents that an entry like "-5" looks like the start of a new row
+			lines = append(lines, strings.Split(strings.ReplaceAll(line, "||", "\n| "), "\n")...)
+		} else {
+			lines = append(lines, line)
+		}
+	}
 
 	var rowTokens []TableRowToken
 	var captionToken TableCaptionToken
@@ -167,6 +177,8 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 			break
 		}
 
+		isHeading := strings.HasPrefix(line, "!")
+
 		line = strings.TrimPrefix(line, "|")
 		line = strings.TrimPrefix(line, "!")
 		line = strings.TrimSpace(line)
@@ -187,7 +199,7 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 		tokenizedLine = strings.TrimSpace(tokenizedLine)
 
 		var token TableColToken
-		if strings.HasPrefix(strings.TrimSpace(lines[i]), "!") {
+		if isHeading {
 			token = TableColToken{
 				Attributes: attributeToken,
 				Content:    tokenizedLine,
@@ -248,13 +260,15 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttributeToken) {
 	var attributeToken TableColAttributeToken
 
-	splittedContent := strings.Split(content, "|")
-	if len(splittedContent) < 2 {
+	// Only the first line can contain attributes
+	firstLine, _, _ := strings.Cut(content, "\n")
+	attributeString, _, hasAttributes := strings.Cut(firstLine, "|")
+	if !hasAttributes {
 		return t.tokenizeContent(t, content), attributeToken
 	}
 
-	attributeString := strings.TrimSpace(splittedContent[0])
-	entryText := t.tokenizeContent(t, splittedContent[1])
+	entryText := t.tokenizeContent(t, content[len(attributeString)+1:])
+	attributeString = strings.TrimSpace(attributeString)
 
 	var relevantTags []string
 
-- 
2.43.0


From 184db23eba4570c6795bd38d9250734bc966f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 19/57] fix: parse tables before lists to keep tables behind a
 colon together

---
 src/parser/table.go     | 4 ++--
 src/parser/tokenizer.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 4cc5ed2..9131b78 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -69,10 +69,10 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	for ; i < len(lines); i++ {
 		line := strings.TrimSpace(lines[i])
 
-		if strings.HasPrefix(line, "{|") || strings.HasPrefix(line, ":{|") {
+		if submatch := tableStartRegex.FindStringSubmatch(line); submatch != nil {
 			// another table starts
 			tableToken, i = t.tokenizeTables(lines, i)
-			tableLines = append(tableLines, tableToken)
+			tableLines = append(tableLines, submatch[1]+tableToken)
 		} else if strings.HasPrefix(line, "|}") {
 			// the table ends with this line
 			tableLines = append(tableLines, lines[i])
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index bfcb08d..fa4a093 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -154,8 +154,8 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseImages(content)
 
 		content = t.parseExternalLinks(content)
-		content = t.parseLists(content)
 		content = t.parseTables(content)
+		content = t.parseLists(content)
 		content = t.parseParagraphs(content)
 
 		if content == originalContent {
-- 
2.43.0


From 2cc2ab9bb8fb7f03963fe4ba7c07078997ae3ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 20/57] fix: keep text behind the end of tables

---
 src/parser/table.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 9131b78..a3276dc 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -58,10 +58,11 @@ func (t *Tokenizer) parseTables(content string) string {
 	return content
 }
 
-// tokenizeTable returns the token of the table and the index of the row where this table ended.
+// tokenizeTable returns the token of the table (followed by the text behind the end of the table) and the index of the
+// row where this table ended.
 func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	var tableLines []string
-	var tableToken string
+	var tableToken, textBehindTable string
 	tableLines = append(tableLines, lines[i])
 	i++
 
@@ -75,7 +76,8 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 			tableLines = append(tableLines, submatch[1]+tableToken)
 		} else if strings.HasPrefix(line, "|}") {
 			// the table ends with this line
-			tableLines = append(tableLines, lines[i])
+			tableLines = append(tableLines, "|}")
+			textBehindTable = strings.TrimPrefix(line, "|}")
 			break
 		} else {
 			tableLines = append(tableLines, lines[i])
@@ -88,7 +90,7 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	tokenKey := t.getToken(TOKEN_TABLE)
 	t.setRawToken(tokenKey, token)
 
-	return tokenKey, i
+	return tokenKey + textBehindTable, i
 }
 
 // tokenizeTable expects content to be all lines of a table.
-- 
2.43.0


From 9154d2f3a21fa7e59c25ce101e7e355e2e3e4055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 21/57] fix: find all references within the references element
 and all notations of attributes

---
 src/parser/pattern.go   |  7 ++++---
 src/parser/reference.go | 32 +++++++++++---------------------
 2 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 86abd29..cc8ff2e 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -54,9 +54,10 @@ var (
 
 // References
 var (
-	referencePlaceholderShortRegex = regexp.MustCompile(`(?i)<references.*?/\s*>`) // <references />
-	referencePlaceholderStartRegex = regexp.MustCompile(`(?i)<references.*?\s*>`)  // <references group="foo" >
-	referencePlaceholderEndRegex   = regexp.MustCompile(`(?i)</references\s*>`)    // </references>
+	referencePlaceholderShortRegex = regexp.MustCompile(`(?is)<references.*?/\s*>`) // <references />
+	referencePlaceholderStartRegex = regexp.MustCompile(`(?is)<references.*?\s*>`)  // <references group="foo" >
+	referenceAttributeRegex        = regexp.MustCompile(`\s([^\s="'/>]+)\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'/>]*))`)
+	referencePlaceholderEndRegex   = regexp.MustCompile(`(?i)</references\s*>`) // </references>
 )
 
 // Math
diff --git a/src/parser/reference.go b/src/parser/reference.go
index 63a674b..e84ed9b 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -95,6 +95,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 			currentPlaceholderGroup = t.getGroupOrDefault(content[i:startEndIndex])
 			content = content[0:i] + content[startEndIndex+1:] // Remove tag from content
 			cursorWithinReferencePlaceholder = true
+			i-- // Compensate "i++" from loop to not skip the first character behind the tag
 		} else {
 			// Tag like "<ref name=..." or "<ref>..." found
 			nameAttributeValue := t.getNameAttribute(content[i+refDefStartLen : startEndIndex])
@@ -112,6 +113,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 			refNumberToContentForCurrentGroup := refNumberToContent[groupName]
 			refNumberCounterForCurrentGroup := refNumberCounter[groupName]
 
+			lengthWithTag := len(content)
 			isReferenceUsage := content[startEndIndex-1] == '/' // Reference definitions end with "/>" instead of "</ref>"
 			if isReferenceUsage {
 				// Reference usage like "<ref name=foo />"
@@ -128,6 +130,11 @@ func (t *Tokenizer) parseReferences(content string) string {
 			}
 
 			refNumberCounter[groupName] = refNumberCounterForCurrentGroup
+
+			if cursorWithinReferencePlaceholder && len(content) < lengthWithTag {
+				// The tag has been removed -> Compensate "i++" from loop to not skip the first character behind it
+				i--
+			}
 		}
 	}
 
@@ -249,28 +256,11 @@ func (t *Tokenizer) getGroupOrDefault(content string) string {
 // attributes. When unquoted attributes are used (e.g. as in name=foobar), the value is only interpreted until a space
 // of slash. For quoted attributes (e.g. as in name="foo bar") everything until the next quote is interpreted as name value.
 func (t *Tokenizer) getAttribute(content string, attributeName string) string {
-	if strings.Contains(content, " "+attributeName+"=\"") {
-		// Attribute with quotation
-		parts := strings.Split(content, "\"")
-		for i, part := range parts {
-			if strings.HasSuffix(part, " "+attributeName+"=") {
-				// Found attribute key, next item is the value which can be returned
-				return parts[i+1]
-			}
-		}
-	} else if strings.Contains(content, " "+attributeName+"=") {
-		// Attribute without quotation like "name=foo"
-		// The value ends with a space (separator for additional attributes) or slash (and of <ref.../>-token).
-		parts := strings.SplitN(content, " "+attributeName+"=", 2)
-		var letter rune
-		var attributeValue string
-		for _, letter = range parts[1] {
-			if letter == '/' || letter == ' ' || letter == '>' {
-				break
-			}
-			attributeValue += string(letter)
+	for _, match := range referenceAttributeRegex.FindAllStringSubmatch(content, -1) {
+		if util.EqualsIgnoreCase(match[1], attributeName) {
+			// Only one of the groups for double quoted, single quoted and unquoted values is not empty.
+			return match[2] + match[3] + match[4]
 		}
-		return attributeValue
 	}
 
 	// Attribut not found
-- 
2.43.0


From c0df71e6a6062edfaac3fa49c8d3fb8d0a687695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 22/57] fix: keep the text of external links with other schemes

---
 src/generator/expand.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index c33a8c2..a5c04b1 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -12,6 +12,8 @@ func expandToken(expansionHandler ExpansionHandler, token parser.Token) (string,
 	var html = ""
 
 	switch t := token.(type) {
+	case parser.StringToken:
+		html, err = expand(expansionHandler, t.String)
 	case parser.HeadingToken:
 		html, err = expansionHandler.expandHeadings(t)
 	case parser.InlineImageToken:
-- 
2.43.0


From 9812ed95116484999deddc9158df204e9f6f3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 23/57] fix: text of links to sections of the same article

---
 src/parser/link.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/link.go b/src/parser/link.go
index dbbe943..798b16f 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -95,6 +95,9 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 				// link text is the part behind the last ":".
 				linkSegments := strings.SplitN(linkTarget, ":", -1)
 				linkText = linkSegments[len(linkSegments)-1]
+			} else if linkTarget == "" {
+				// A link to a section of the same article, e.g. "[[#section]]".
+				linkText = strings.TrimSpace(wikitextElements[0])
 			} else {
 				// A normal link but without the delimiter. Therefore, the link text is the whole link content, e.g. the
 				// name of the article.
-- 
2.43.0


From 0d421ec32ed3a40c2c4cb04d20587d129a878689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 24/57] fix: text starting like a list or heading in the middle
 of a line

---
 src/parser/heading.go   |  7 +++----
 src/parser/image.go     |  2 +-
 src/parser/link.go      |  6 +++---
 src/parser/list.go      |  8 ++++----
 src/parser/reference.go |  2 +-
 src/parser/table.go     |  4 ++--
 src/parser/tokenizer.go | 13 +++++++++++++
 7 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/parser/heading.go b/src/parser/heading.go
index 17473f6..0067f10 100644
--- a/src/parser/heading.go
+++ b/src/parser/heading.go
@@ -20,13 +20,12 @@ func (t *Tokenizer) parseHeadings(content string) string {
 		for i := 0; i < len(lines); i++ {
 			line := strings.TrimSpace(lines[i])
 
-			if strings.HasPrefix(line, headingMediawikiMarker) && strings.HasSuffix(line, headingMediawikiMarker) {
-				headingText := strings.ReplaceAll(line, headingMediawikiMarker, "")
-				headingText = strings.TrimSpace(headingText)
+			if len(line) > 2*depth && strings.HasPrefix(line, headingMediawikiMarker) && strings.HasSuffix(line, headingMediawikiMarker) {
+				headingText := strings.TrimSpace(line[depth : len(line)-depth])
 
 				token := t.getToken(TOKEN_HEADING)
 				t.setRawToken(token, HeadingToken{
-					Content: t.tokenizeContent(t, headingText),
+					Content: t.tokenizeInlineContent(headingText),
 					Depth:   depth,
 				})
 				lines[i] = token
diff --git a/src/parser/image.go b/src/parser/image.go
index cd58994..3598257 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -287,7 +287,7 @@ func (t *Tokenizer) parseImages(content string) string {
 					}
 				} else if i == len(filteredOptions)-1 && tokenType == TOKEN_IMAGE {
 					// Last remaining option is the caption. We ignore captions on inline images.
-					captionToken.Content = t.tokenizeContent(t, option)
+					captionToken.Content = t.tokenizeInlineContent(option)
 				}
 			}
 
diff --git a/src/parser/link.go b/src/parser/link.go
index 798b16f..51738a9 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -114,7 +114,7 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 		if linkType == LINK_TYPE_INTERNAL {
 			token = InternalLinkToken{
 				ArticleName: linkTarget,
-				LinkText:    t.tokenizeContent(t, linkText),
+				LinkText:    t.tokenizeInlineContent(linkText),
 			}
 			linkTokenKey = TOKEN_INTERNAL_LINK
 		} else if linkType == LINK_TYPE_EXTERNAL {
@@ -123,12 +123,12 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 			if util.HasAnyPrefix(linkTarget, "http://", "https://") {
 				token = ExternalLinkToken{
 					URL:      linkTarget,
-					LinkText: t.tokenizeContent(t, linkText),
+					LinkText: t.tokenizeInlineContent(linkText),
 				}
 				linkTokenKey = TOKEN_EXTERNAL_LINK
 			} else if strings.Contains(linkTarget, "://") {
 				token = StringToken{
-					String: t.tokenizeContent(t, linkText),
+					String: t.tokenizeInlineContent(linkText),
 				}
 				linkTokenKey = TOKEN_STRING
 			}
diff --git a/src/parser/list.go b/src/parser/list.go
index 3d97a63..feca374 100644
--- a/src/parser/list.go
+++ b/src/parser/list.go
@@ -161,7 +161,7 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 				// Description list head -> also check for description list item in the same line
 				lineParts := strings.SplitN(line[1:], ":", 2)
 
-				headPart := t.tokenizeContent(t, lineParts[0])
+				headPart := t.tokenizeInlineContent(lineParts[0])
 				headToken := ListItemToken{
 					Type:    DESCRIPTION_HEAD,
 					Content: headPart,
@@ -170,7 +170,7 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 
 				if len(lineParts) > 1 {
 					// There's a description list item after the heading -> Create separate token for that
-					itemPart := t.tokenizeContent(t, lineParts[1])
+					itemPart := t.tokenizeInlineContent(lineParts[1])
 					itemToken := ListItemToken{
 						Type:    DESCRIPTION_ITEM,
 						Content: itemPart,
@@ -181,12 +181,12 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 				// Description list item
 				itemToken := ListItemToken{
 					Type:    DESCRIPTION_ITEM,
-					Content: t.tokenizeContent(t, line[1:]),
+					Content: t.tokenizeInlineContent(line[1:]),
 				}
 				allListItemTokens = append(allListItemTokens, itemToken)
 			} else {
 				// Normal list item
-				tokenizedLine := t.tokenizeContent(t, line[1:])
+				tokenizedLine := t.tokenizeInlineContent(line[1:])
 				lineToken := ListItemToken{
 					Type:    NORMAL_ITEM,
 					Content: tokenizedLine,
diff --git a/src/parser/reference.go b/src/parser/reference.go
index e84ed9b..2d84f79 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -220,7 +220,7 @@ func (t *Tokenizer) parseReferenceDefinition(content string, i int, startEndInde
 		}
 	}
 
-	refNumberToContent[refNumber] = t.tokenizeContent(t, content[startEndIndex+1:refEndIndex])
+	refNumberToContent[refNumber] = t.tokenizeInlineContent(content[startEndIndex+1:refEndIndex])
 
 	if !cursorWithinReferencePlaceholder {
 		tokenKey := t.getToken(TOKEN_REF_USAGE)
diff --git a/src/parser/table.go b/src/parser/table.go
index a3276dc..248fdf8 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -266,10 +266,10 @@ func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttribut
 	firstLine, _, _ := strings.Cut(content, "\n")
 	attributeString, _, hasAttributes := strings.Cut(firstLine, "|")
 	if !hasAttributes {
-		return t.tokenizeContent(t, content), attributeToken
+		return t.tokenizeInlineContent(content), attributeToken
 	}
 
-	entryText := t.tokenizeContent(t, content[len(attributeString)+1:])
+	entryText := t.tokenizeInlineContent(content[len(attributeString)+1:])
 	attributeString = strings.TrimSpace(attributeString)
 
 	var relevantTags []string
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index fa4a093..dc41840 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"strings"
 	"wiki2book/wikipedia"
 
 	"github.com/hauke96/sigolo/v2"
@@ -135,6 +136,18 @@ func (t *Tokenizer) setRawToken(key string, tokenContent interface{}) {
 	t.tokenMap[key] = tokenContent
 }
 
+// tokenizeInlineContent tokenizes content that starts in the middle of a line, e.g. the text of a link. Even when its first
+// line starts like a list or heading, it's just text.
+func (t *Tokenizer) tokenizeInlineContent(content string) string {
+	trimmedContent := strings.TrimLeft(content, " \t")
+	if trimmedContent != "" && (isListStartingCharacter(trimmedContent[0]) || trimmedContent[0] == '=') {
+		token := t.getToken(TOKEN_STRING)
+		t.setRawToken(token, StringToken{String: trimmedContent[:1]})
+		content = token + trimmedContent[1:]
+	}
+	return t.tokenizeContent(t, content)
+}
+
 // tokenizeContent takes a string and tokenizes it. After this call, the Tokenizer.tokenMap will be filled and parts
 // of the input will be replaced by token strings.
 func tokenizeContent(t *Tokenizer, content string) string {
-- 
2.43.0


From add8deb2c0c99d776a25419081c75888ee17acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 25/57] fix: keep parameters of trailing templates

---
 src/parser/cleaner.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index e8c57dc..26e3944 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -165,8 +165,9 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 				maskedContent = maskedContent[:i] + maskedContent[closedTemplateIndex+2:]
 
 				// Collect templates that should be moved to the bottom of the article
-				if util.Contains(trailingTemplates, templateName) {
-					foundTrailingTemplates = append(foundTrailingTemplates, templateName)
+				if util.HasAnyPrefix(templateName, trailingTemplates...) {
+					innerText := t.handleUnwantedAndTrailingTemplates(templateText[2:])
+					foundTrailingTemplates = append(foundTrailingTemplates, "{{"+innerText)
 				}
 
 				// Because the template was removed, we have to start from the original location again in the next
@@ -178,7 +179,7 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 
 	// Re-add trailing templates to the bottom of the article
 	for _, foundTrailingTemplate := range foundTrailingTemplates {
-		content += "\n{{" + foundTrailingTemplate + "}}"
+		content += "\n" + foundTrailingTemplate
 	}
 
 	return content
-- 
2.43.0


From 69ca3db1b8dfe0013ec8c86d1714e62bde55a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 26/57] fix: comment at the start of a line joined two lines

---
 src/parser/cleaner.go | 51 ++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 26e3944..95257aa 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -29,42 +29,33 @@ func (t *Tokenizer) clean(content string) (string, error) {
 }
 
 func (t *Tokenizer) removeComments(content string) string {
-	// The following steps are performed:
-	//   1. Split by the end token "-->" of comments
-	//   2. For each element in that slice, split by start token "<!--" of comments
-	//   3. Only append the non-comment parts of the splits to the result segments
-
-	splitContent := strings.Split(content, "-->")
-	var resultSegments []string
-
-	for i, splitItem := range splitContent {
-		if i == len(splitContent)-1 {
-			// The last string is never the end of a comment. It's either an empty string (in case the content directly
-			// ends with a comment) or it's the text after the last comment.
-			resultSegments = append(resultSegments, splitItem)
-			continue
+	var result string
+
+	for {
+		startIndex := strings.Index(content, "<!--")
+		if startIndex == -1 {
+			break
+		}
+		commentLength := strings.Index(content[startIndex+len("<!--"):], "-->")
+		if commentLength == -1 {
+			// Comment is never closed -> no comment, leave the text as is
+			break
 		}
 
-		segments := strings.Split(splitItem, "<!--")
-		if len(segments) == 1 {
-			resultSegments = append(resultSegments, segments...)
-			resultSegments = append(resultSegments, "-->")
-		} else {
-			nonCommentSegment := segments[0]
-
-			// Remove potentially trailing newline:
-			if len(nonCommentSegment) > 0 && nonCommentSegment[len(nonCommentSegment)-1] == '\n' {
-				// If this segments ends with a newline, the comment following it started with a newline. We remove the
-				// newline, because otherwise, there will be additional blank lines between former comments. Example:
-				// "foo\n<!--comment-->\nbar"  would turn into  "foo\n\nbar"  instead of  "foo\nbar"
-				nonCommentSegment = nonCommentSegment[:len(nonCommentSegment)-1]
-			}
+		result += content[:startIndex]
+		content = content[startIndex+len("<!--")+commentLength+len("-->"):]
 
-			resultSegments = append(resultSegments, nonCommentSegment)
+		// Also remove the line of the comment when there's nothing else in it, because otherwise there will be additional
+		// blank lines. Example: "foo\n<!--comment-->\nbar"  would turn into  "foo\n\nbar"  instead of  "foo\nbar"
+		lineBreakIndex := strings.LastIndex(result, "\n")
+		restOfLine, _, _ := strings.Cut(content, "\n")
+		if lineBreakIndex != -1 && strings.TrimSpace(result[lineBreakIndex:]+restOfLine) == "" {
+			result = result[:lineBreakIndex]
+			content = content[len(restOfLine):]
 		}
 	}
 
-	return strings.Join(resultSegments, "")
+	return result + content
 }
 
 // removeUnwantedInternalLinks removes all kind of unwanted links. This method leaves all allowed internal links
-- 
2.43.0


From 874d96e0cbe442349fa991fc686f3ce47dc329fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 27/57] fix: captions of images that start like a parameter,
 end like a size or stand in front of parameters

---
 src/parser/image.go   | 46 ++++++++++++++++++++++++++++++++-----------
 src/parser/pattern.go |  8 ++++----
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 3598257..ffdf333 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -13,7 +13,22 @@ import (
 
 var imageNonInlineParameters = []string{
 	"mini",
+	"miniatur",
 	"thumb",
+	"thumbnail",
+}
+
+// isImageParameter returns true if the given option of an image is one of the parameters, maybe with a value. Any other text
+// that just starts like a parameter (e.g. a caption) is not a parameter.
+func isImageParameter(option string, parameters []string) bool {
+	option = strings.TrimSpace(option)
+	for _, parameter := range parameters {
+		value, hasPrefix := strings.CutPrefix(option, parameter)
+		if hasPrefix && imageParameterValueRegex.MatchString(value) {
+			return true
+		}
+	}
+	return false
 }
 
 type ImageToken struct {
@@ -124,7 +139,12 @@ func (t *Tokenizer) parseGalleries(content string) string {
 
 			lineSegments := strings.Split(trimmedLine, "|")
 
-			if !hasNonInlineParameterRegex.MatchString(trimmedLine) {
+			hasNonInlineParameter := false
+			for _, option := range lineSegments[1:] {
+				hasNonInlineParameter = hasNonInlineParameter || isImageParameter(strings.ToLower(option), imageNonInlineParameters)
+			}
+
+			if !hasNonInlineParameter {
 				// Line has no non-inline parameter -> Add one to make it a non-inline image in further image parsing/escaping
 				// The last parameter is the caption, so the non-inline parameter is added right behind the file name
 				newLineSegments := make([]string, len(lineSegments)+1)
@@ -243,18 +263,19 @@ func (t *Tokenizer) parseImages(content string) string {
 
 			// Do some cleanup: Remove definitely uninteresting options.
 			var filteredOptions []string
-			for _, option := range options {
-				if !util.HasAnyPrefix(option, config.Current.IgnoredImageParams...) {
+			for i, option := range options {
+				if i == 0 || !isImageParameter(option, config.Current.IgnoredImageParams) {
 					filteredOptions = append(filteredOptions, option)
 				}
 			}
 
-			for i, option := range filteredOptions {
-				if util.HasAnyPrefix(option, imageNonInlineParameters...) {
+			caption := ""
+			for _, option := range filteredOptions[1:] {
+				if isImageParameter(strings.ToLower(option), imageNonInlineParameters) {
 					tokenType = TOKEN_IMAGE
 					hasCaption = true
-				} else if strings.HasSuffix(option, "px") {
-					option = strings.TrimSuffix(option, "px")
+				} else if imageSizeRegex.MatchString(option) {
+					option = strings.TrimSuffix(strings.TrimSpace(option), "px")
 					sizes := strings.Split(option, "x")
 
 					// Valid formats:
@@ -285,14 +306,15 @@ func (t *Tokenizer) parseImages(content string) string {
 						tokenType = TOKEN_IMAGE
 						// no change in hasCaption flag, only explicit non-inline images have a caption
 					}
-				} else if i == len(filteredOptions)-1 && tokenType == TOKEN_IMAGE {
-					// Last remaining option is the caption. We ignore captions on inline images.
-					captionToken.Content = t.tokenizeInlineContent(option)
+				} else {
+					// Last remaining option is the caption.
+					caption = option
 				}
 			}
 
-			if !hasCaption {
-				captionToken = CaptionToken{}
+			// We ignore captions on inline images.
+			if hasCaption {
+				captionToken.Content = t.tokenizeInlineContent(caption)
 			}
 
 			var imageToken Token
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index cc8ff2e..17a61f2 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"regexp"
-	"strings"
 )
 
 /*
@@ -40,9 +39,10 @@ var (
 
 // Media files
 var (
-	galleryStartRegex          = regexp.MustCompile(`(?i)^<gallery.*?>`)
-	imagemapStartRegex         = regexp.MustCompile(`(?i)^<imagemap.*?>`)
-	hasNonInlineParameterRegex = regexp.MustCompile("(?i)(" + strings.Join(imageNonInlineParameters, "|") + ")")
+	galleryStartRegex        = regexp.MustCompile(`(?i)^<gallery.*?>`)
+	imagemapStartRegex       = regexp.MustCompile(`(?i)^<imagemap.*?>`)
+	imageParameterValueRegex = regexp.MustCompile(`(?s)^(\s*=.*|[ _]?[\d.]+)?$`)
+	imageSizeRegex           = regexp.MustCompile(`^[\dx\s]*px\s*$`)
 )
 
 // Tables
-- 
2.43.0


From d58e8540a90e5193ed5071de592a60a007632678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 28/57] fix: galleries and imagemaps with tags not on lines of
 their own

---
 src/parser/image.go   | 30 ++++++++++++++++++++++--------
 src/parser/pattern.go |  3 +++
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index ffdf333..364a3ba 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"path/filepath"
+	"regexp"
 	"strconv"
 	"strings"
 	"wiki2book/config"
@@ -103,8 +104,15 @@ func (t *Tokenizer) escapeImages(content string) string {
 	return strings.Join(segments, "|")
 }
 
+// separateTags puts start and end tags matching the given regex on lines of their own when there's text in front of them.
+func separateTags(content string, tagRegex *regexp.Regexp) string {
+	// Each character is part of at most one match, so adjacent tags need a second run.
+	content = tagRegex.ReplaceAllString(content, "$1\n$2")
+	return tagRegex.ReplaceAllString(content, "$1\n$2")
+}
+
 func (t *Tokenizer) parseGalleries(content string) string {
-	lines := strings.Split(content, "\n")
+	lines := strings.Split(separateTags(content, galleryTagRegex), "\n")
 	withinGallery := false
 	var resultLines []string
 
@@ -176,6 +184,8 @@ func (t *Tokenizer) parseGalleries(content string) string {
 }
 
 func (t *Tokenizer) parseImageMaps(content string) string {
+	content = separateTags(content, imagemapTagRegex)
+	content = imagemapEndRegex.ReplaceAllString(content, "$1\n$2")
 	lines := strings.Split(content, "\n")
 
 	withinImageMap := false
@@ -200,18 +210,22 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 		// Image map starts -> Parse the image
 		if imagemapStartRegex.MatchString(line) {
 			line = strings.TrimSpace(imagemapStartRegex.ReplaceAllString(line, ""))
-			if line == "" {
+			for line == "" && i+1 < len(lines) {
 				// if empty -> delete this line i, the next line contains the image
 				lines = append(lines[:i], lines[i+1:]...)
-				if i >= len(lines) {
-					// No image specified until the end of the content
-					break
-				}
-				line = lines[i]
+				line = strings.TrimSpace(lines[i])
+			}
+			if line == "" {
+				// No image specified until the end of the content
+				lines = lines[:i]
+				break
 			}
 
 			// "line" contains definitely the image of the imagemap
-			lines[i] = fmt.Sprintf("[[%s]]", t.escapeImages(line))
+			lines[i] = t.escapeImages(line)
+			if lines[i] != "" {
+				lines[i] = fmt.Sprintf("[[%s]]", lines[i])
+			}
 
 			withinImageMap = true
 			continue
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 17a61f2..ec4d29c 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -41,6 +41,9 @@ var (
 var (
 	galleryStartRegex        = regexp.MustCompile(`(?i)^<gallery.*?>`)
 	imagemapStartRegex       = regexp.MustCompile(`(?i)^<imagemap.*?>`)
+	galleryTagRegex          = regexp.MustCompile(`(?i)(\S)[ \t]*(</?gallery(?:\s[^>]*)?>)`)
+	imagemapTagRegex         = regexp.MustCompile(`(?i)(\S)[ \t]*(</?imagemap(?:\s[^>]*)?>)`)
+	imagemapEndRegex         = regexp.MustCompile(`(?i)(</imagemap>)[ \t]*(\S)`)
 	imageParameterValueRegex = regexp.MustCompile(`(?s)^(\s*=.*|[ _]?[\d.]+)?$`)
 	imageSizeRegex           = regexp.MustCompile(`^[\dx\s]*px\s*$`)
 )
-- 
2.43.0


From ad350e4ae91809a726d752c5dd22c8352f890f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 29/57] fix: statistics: sub-lists belong to the article as
 well

---
 src/generator/stats.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 4668261..8ec05ec 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -229,7 +229,20 @@ func (g *StatsGenerator) expandListItems(items []parser.ListItemToken) (string,
 }
 
 func (g *StatsGenerator) expandListItem(token parser.ListItemToken) (string, error) {
-	return expand(g, token.Content)
+	result, err := expand(g, token.Content)
+	if err != nil {
+		return "", err
+	}
+
+	for _, subList := range token.SubLists {
+		expandedSubList, err := expand(g, subList)
+		if err != nil {
+			return "", err
+		}
+		result += expandedSubList
+	}
+
+	return result, nil
 }
 
 func (g *StatsGenerator) expandRefDefinition(token parser.RefDefinitionToken) (string, error) {
-- 
2.43.0


From e97bb66baa6f69e6699aad49564de57989081257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 30/57] fix: statistics: nowiki text belongs to the article as
 well

---
 src/generator/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 8ec05ec..6dd9538 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -261,7 +261,7 @@ func (g *StatsGenerator) expandMath(token parser.MathToken) (string, error) {
 }
 
 func (g *StatsGenerator) expandNowiki(token parser.NowikiToken) string {
-	return ""
+	return g.expandSimpleString(token.Content)
 }
 
 func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
-- 
2.43.0


From 71351c99fb8f90de6a5cdc27b7d67eda655d57f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 31/57] fix: statistics: a link to a section only belongs to
 the article itself

---
 src/generator/stats.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 6dd9538..e43ad16 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -156,7 +156,14 @@ func (g *StatsGenerator) expandImage(token parser.ImageToken) (string, error) {
 
 func (g *StatsGenerator) expandInternalLink(token parser.InternalLinkToken) (string, error) {
 	g.stats.NumberOfInternalLinks++
-	g.stats.InternalLinks[token.ArticleName]++
+
+	articleName := token.ArticleName
+	if articleName == "" {
+		// A link to just a section (e.g. "[[#foo]]") is a link to a section of this article.
+		articleName = g.stats.ArticleName
+	}
+	g.stats.InternalLinks[articleName]++
+
 	return expand(g, token.LinkText)
 }
 
-- 
2.43.0


From ebefe0b42706a02350af7cd5ebc86061895523a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 32/57] fix: statistics: same articles, same statistics

---
 src/generator/stats.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index e43ad16..fc274bb 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -282,6 +282,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 		Top10UncoveredInternalLinks: map[string]int{},
 	}
 	articles := map[string]*articleStats{}
+	var articleNames []string
 
 	for _, statFile := range statFiles {
 		var fileContent []byte
@@ -299,6 +300,9 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 			return errors.Wrapf(err, "Error parsing JSON from stats file '%s'", statFile)
 		}
 
+		if _, ok := articles[stats.ArticleName]; !ok {
+			articleNames = append(articleNames, stats.ArticleName)
+		}
 		articles[stats.ArticleName] = stats
 		combinedStats.NumberOfCharacters += stats.NumberOfCharacters
 		combinedStats.NumberOfWords += stats.NumberOfWords
@@ -324,7 +328,10 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	}
 
 	slices.SortFunc(uncoveredArticles, func(a, b string) int {
-		return cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a])
+		return cmp.Or(
+			cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a]),
+			cmp.Compare(a, b),
+		)
 	})
 	for i, uncoveredArticle := range uncoveredArticles {
 		if i >= 10 {
@@ -340,7 +347,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	if config.Current.OutputType == config.OutputTypeStatsJson {
 		outputConent, err = generateJsonStatsContent(combinedStats)
 	} else if config.Current.OutputType == config.OutputTypeStatsTxt {
-		outputConent, err = generateTxtStatsContent(articles, combinedStats)
+		outputConent, err = generateTxtStatsContent(articleNames, combinedStats)
 	} else {
 		return errors.Errorf("Invalid output type '%s' for stats", config.Current.OutputType)
 	}
@@ -371,7 +378,7 @@ func generateJsonStatsContent(combinedStats *articleStats) ([]byte, error) {
 	return outputConent, nil
 }
 
-func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *articleStats) ([]byte, error) {
+func generateTxtStatsContent(articleNames []string, combinedStats *articleStats) ([]byte, error) {
 	result := "Statistics generated with wiki2book:\n\n"
 
 	result += "General:\n"
@@ -381,8 +388,8 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 
 	// Article names
 	result += "Article:\n"
-	for _, article := range articles {
-		result += "  " + article.ArticleName + "\n"
+	for _, articleName := range articleNames {
+		result += "  " + articleName + "\n"
 	}
 	result += "\n"
 
@@ -398,7 +405,10 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 		sortedUncoveredLinks = append(sortedUncoveredLinks, uncoveredLinkEntry{k, v})
 	}
 	sort.Slice(sortedUncoveredLinks, func(i, j int) bool {
-		return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
+		if sortedUncoveredLinks[i].occurrences != sortedUncoveredLinks[j].occurrences {
+			return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
+		}
+		return sortedUncoveredLinks[i].articleName < sortedUncoveredLinks[j].articleName
 	})
 
 	for i := 0; i < int(math.Min(float64(len(sortedUncoveredLinks)), 20)); i++ {
-- 
2.43.0


From a0a8efa7f7cb1444536c1d6ab9a46d3e83c63acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 33/57] fix: lists of a project or the CLI differing from the
 default only in their order were ignored

---
 src/config/config.go    | 19 ++++++++++---------
 src/util/collections.go | 26 --------------------------
 2 files changed, 10 insertions(+), 35 deletions(-)

diff --git a/src/config/config.go b/src/config/config.go
index fe9172c..4947a62 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 	"wiki2book/util"
 
@@ -567,25 +568,25 @@ func MergeIntoCurrentConfig(c *Configuration) {
 		sigolo.Tracef("Override PandocDataDir with %s", absolutePath)
 		Current.PandocDataDir = absolutePath
 	}
-	if !util.EqualsInAnyOrder(c.FontFiles, defaultConfig.FontFiles) {
+	if !slices.Equal(c.FontFiles, defaultConfig.FontFiles) {
 		absolutePaths, err := util.ToAbsolutePaths(c.FontFiles...)
 		sigolo.FatalCheck(err)
 		sigolo.Tracef("Override FontFiles with %v", c.SvgSizeToViewbox)
 		Current.FontFiles = absolutePaths
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredTemplates, defaultConfig.IgnoredTemplates) {
+	if !slices.Equal(c.IgnoredTemplates, defaultConfig.IgnoredTemplates) {
 		sigolo.Tracef("Override IgnoredTemplates with %v", c.IgnoredTemplates)
 		Current.IgnoredTemplates = c.IgnoredTemplates
 	}
-	if !util.EqualsInAnyOrder(c.TrailingTemplates, defaultConfig.TrailingTemplates) {
+	if !slices.Equal(c.TrailingTemplates, defaultConfig.TrailingTemplates) {
 		sigolo.Tracef("Override TrailingTemplates with %v", c.TrailingTemplates)
 		Current.TrailingTemplates = c.TrailingTemplates
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredImageParams, defaultConfig.IgnoredImageParams) {
+	if !slices.Equal(c.IgnoredImageParams, defaultConfig.IgnoredImageParams) {
 		sigolo.Tracef("Override IgnoredImageParams with %v", c.IgnoredImageParams)
 		Current.IgnoredImageParams = c.IgnoredImageParams
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredMediaTypes, defaultConfig.IgnoredMediaTypes) {
+	if !slices.Equal(c.IgnoredMediaTypes, defaultConfig.IgnoredMediaTypes) {
 		sigolo.Tracef("Override IgnoredMediaTypes with %v", c.IgnoredMediaTypes)
 		Current.IgnoredMediaTypes = c.IgnoredMediaTypes
 	}
@@ -605,19 +606,19 @@ func MergeIntoCurrentConfig(c *Configuration) {
 		sigolo.Tracef("Override WikipediaMathRestApi with %s", c.WikipediaMathRestApi)
 		Current.WikipediaMathRestApi = c.WikipediaMathRestApi
 	}
-	if !util.EqualsInAnyOrder(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
+	if !slices.Equal(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
 		sigolo.Tracef("Override WikipediaImageArticleHosts with %v", c.WikipediaImageArticleHosts)
 		Current.WikipediaImageArticleHosts = c.WikipediaImageArticleHosts
 	}
-	if !util.EqualsInAnyOrder(c.FilePrefixes, defaultConfig.FilePrefixes) {
+	if !slices.Equal(c.FilePrefixes, defaultConfig.FilePrefixes) {
 		sigolo.Tracef("Override FilePrefixes with %v", c.FilePrefixes)
 		Current.FilePrefixes = c.FilePrefixes
 	}
-	if !util.EqualsInAnyOrder(c.AllowedLinkPrefixes, defaultConfig.AllowedLinkPrefixes) {
+	if !slices.Equal(c.AllowedLinkPrefixes, defaultConfig.AllowedLinkPrefixes) {
 		sigolo.Tracef("Override AllowedLinkPrefixes with %v", c.AllowedLinkPrefixes)
 		Current.AllowedLinkPrefixes = c.AllowedLinkPrefixes
 	}
-	if !util.EqualsInAnyOrder(c.CategoryPrefixes, defaultConfig.CategoryPrefixes) {
+	if !slices.Equal(c.CategoryPrefixes, defaultConfig.CategoryPrefixes) {
 		sigolo.Tracef("Override CategoryPrefixes with %v", c.CategoryPrefixes)
 		Current.CategoryPrefixes = c.CategoryPrefixes
 	}
diff --git a/src/util/collections.go b/src/util/collections.go
index 520a289..15ce1d7 100644
--- a/src/util/collections.go
+++ b/src/util/collections.go
@@ -10,32 +10,6 @@ func Contains[T comparable](values []T, valueToCheck T) bool {
 	return false
 }
 
-func EqualsInAnyOrder[T comparable](arrayA []T, arrayB []T) bool {
-	if len(arrayA) != len(arrayB) {
-		return false
-	}
-
-	mapA := make(map[T]T)
-	for _, value := range arrayA {
-		mapA[value] = value
-	}
-
-	mapB := make(map[T]T)
-	for _, value := range arrayB {
-		mapB[value] = value
-	}
-
-	for _, value := range arrayA {
-		_, okA := mapA[value]
-		_, okB := mapB[value]
-		if !okA || !okB {
-			return false
-		}
-	}
-
-	return true
-}
-
 func RemoveDuplicates[T comparable](originallist []T) []T {
 	handledEntries := make(map[T]bool)
 	var listWithoutDuplicates []T
-- 
2.43.0


From e879280b50091158746b50868bd08ce5a525f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 34/57] fix: default values explicitly set in a project or by
 CLI arguments were ignored

---
 src/config/config.go  | 16 ++++++++++++++++
 src/config/project.go | 17 +++++++++++++++++
 src/main.go           | 13 +++++++++----
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/config/config.go b/src/config/config.go
index 4947a62..a74a939 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"reflect"
 	"runtime"
 	"slices"
 	"strings"
@@ -481,6 +482,21 @@ type Configuration struct {
 	UserAgentTemplate string `json:"user-agent-template"`
 }
 
+// MergeExplicitlySetIntoCurrentConfig does the same as MergeIntoCurrentConfig but also considers entries that are set to
+// their default value. The given function must return true for the names of all entries (as used in config files and for
+// CLI arguments) that are set explicitly and therefore have precedence over the value in the Current configuration.
+func MergeExplicitlySetIntoCurrentConfig(c *Configuration, isSet func(name string) bool) {
+	currentValues := reflect.ValueOf(Current).Elem()
+	defaultValues := reflect.ValueOf(NewDefaultConfig()).Elem()
+	for i := 0; i < currentValues.NumField(); i++ {
+		if isSet(currentValues.Type().Field(i).Tag.Get("json")) {
+			currentValues.Field(i).Set(defaultValues.Field(i))
+		}
+	}
+
+	MergeIntoCurrentConfig(c)
+}
+
 // MergeIntoCurrentConfig goes through all the properties of the given configuration and overwrites the respective field
 // in the Current configuration in case the field of the given config is different to the default value.
 func MergeIntoCurrentConfig(c *Configuration) {
diff --git a/src/config/project.go b/src/config/project.go
index e7132aa..d775658 100644
--- a/src/config/project.go
+++ b/src/config/project.go
@@ -15,6 +15,8 @@ type Project struct {
 	Metadata   Metadata `json:"metadata"`
 	OutputFile string   `json:"output-file"`
 	Articles   []string `json:"articles"`
+
+	setEntries map[string]json.RawMessage
 }
 
 type Metadata struct {
@@ -31,6 +33,16 @@ func (p *Project) Print() {
 	sigolo.Debugf("Project:\n  OutputFile: %s\n  Articles: %v\n  Metadata: %s", p.OutputFile, strings.Join(p.Articles, ", "), string(jsonBytes))
 }
 
+// IsSet returns true when the entry with the given name exists in the project file.
+func (p *Project) IsSet(name string) bool {
+	for entry := range p.setEntries {
+		if strings.EqualFold(entry, name) {
+			return true
+		}
+	}
+	return false
+}
+
 // LoadProject reads the given file and creates a corresponding Project instance. It also alters the config.Current
 // object to override default configurations since project specific configs have a higher precedence.
 func LoadProject(file string) (*Project, error) {
@@ -46,5 +58,10 @@ func LoadProject(file string) (*Project, error) {
 		return nil, errors.Wrap(err, "Error parsing project file content")
 	}
 
+	err = json.Unmarshal(projectString, &project.setEntries)
+	if err != nil {
+		return nil, errors.Wrap(err, "Error parsing entries of project file content")
+	}
+
 	return project, nil
 }
diff --git a/src/main.go b/src/main.go
index ff95049..5a68c79 100644
--- a/src/main.go
+++ b/src/main.go
@@ -32,6 +32,9 @@ const (
 
 var cliConfig = config.NewDefaultConfig()
 
+// isCliArgumentSet returns true when the CLI argument with the given name has been specified by the user.
+var isCliArgumentSet = func(name string) bool { return false }
+
 func main() {
 	rootCmd := initCli()
 
@@ -113,6 +116,8 @@ func initCli() *cobra.Command {
 	rootCmd.PersistentFlags().IntVar(&cliConfig.WorkerThreads, "worker-threads", cliConfig.WorkerThreads, "Number of threads to process the articles. Only affects projects but not single articles or the standalone mode. The value must at least be 1.")
 	rootCmd.PersistentFlags().StringVar(&cliConfig.UserAgentTemplate, "user-agent-template", cliConfig.UserAgentTemplate, "Template for the user-agent used in HTTP requests.")
 
+	isCliArgumentSet = rootCmd.PersistentFlags().Changed
+
 	projectCmd := getCommand("project [file]", "Uses a project file to create the eBook.")
 	projectCmd.Args = cobra.MatchAll(cobra.ExactArgs(1))
 	projectCmd.Run = func(cmd *cobra.Command, args []string) {
@@ -133,7 +138,7 @@ func initCli() *cobra.Command {
 	articleCmd.Args = cobra.MatchAll(cobra.ExactArgs(1))
 	articleCmd.Run = func(cmd *cobra.Command, args []string) {
 		sigolo.Infof("Prepare generating eBook from single article")
-		config.MergeIntoCurrentConfig(cliConfig)
+		config.MergeExplicitlySetIntoCurrentConfig(cliConfig, isCliArgumentSet)
 		generateArticleEbook(
 			args[0],
 			cliOutputFile,
@@ -144,7 +149,7 @@ func initCli() *cobra.Command {
 	standaloneCmd.Args = cobra.MatchAll(cobra.ExactArgs(1))
 	standaloneCmd.Run = func(cmd *cobra.Command, args []string) {
 		sigolo.Infof("Prepare generating eBook from standalone mediawiki file")
-		config.MergeIntoCurrentConfig(cliConfig)
+		config.MergeExplicitlySetIntoCurrentConfig(cliConfig, isCliArgumentSet)
 		generateStandaloneEbook(
 			args[0],
 			cliOutputFile,
@@ -249,8 +254,8 @@ func generateProjectEbook(projectFile string, outputFile string) {
 	proj.OutputFile, err = util.ToAbsolutePath(proj.OutputFile)
 	sigolo.FatalCheck(err)
 
-	config.MergeIntoCurrentConfig(&proj.Configuration)
-	config.MergeIntoCurrentConfig(cliConfig)
+	config.MergeExplicitlySetIntoCurrentConfig(&proj.Configuration, proj.IsSet)
+	config.MergeExplicitlySetIntoCurrentConfig(cliConfig, isCliArgumentSet)
 
 	config.Current.Print()
 	proj.Print()
-- 
2.43.0


From 2dd70964965bd6826cc1f350f897a38e9b046b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 35/57] fix: absolute paths of font files in the config file
 became relative to it

---
 src/config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index a74a939..5c1dbdf 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -679,7 +679,7 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	sigolo.FatalCheck(err)
 
 	for i, f := range c.FontFiles {
-		absoluteFile := filepath.Join(absoluteConfigDir, f)
+		absoluteFile, err := util.ToAbsolutePathWithBasedir(absoluteConfigDir, f)
 		sigolo.FatalCheck(err)
 		c.FontFiles[i] = absoluteFile
 	}
-- 
2.43.0


From b01aa17569e60a292314b9c08468208e4085be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 36/57] fix: a relative pandoc executable in the config file
 was searched in the cache folder

---
 src/config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config/config.go b/src/config/config.go
index 5c1dbdf..9780764 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -678,6 +678,12 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	c.PandocDataDir, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.PandocDataDir)
 	sigolo.FatalCheck(err)
 
+	if strings.Contains(c.PandocExecutable, "/") {
+		// Just the name of an executable, e.g. "pandoc", is no path.
+		c.PandocExecutable, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.PandocExecutable)
+		sigolo.FatalCheck(err)
+	}
+
 	for i, f := range c.FontFiles {
 		absoluteFile, err := util.ToAbsolutePathWithBasedir(absoluteConfigDir, f)
 		sigolo.FatalCheck(err)
-- 
2.43.0


From 78c6cb733d0055a15ae42412bc493b3a671cd18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 37/57] fix: paths of CLI arguments were relative to the
 project instead of the working directory

---
 src/config/config.go | 6 ++++++
 src/main.go          | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/config/config.go b/src/config/config.go
index 9780764..c9a5bb6 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -706,6 +706,12 @@ func (c *Configuration) MakePathsAbsoluteToWorkingDir() {
 	c.PandocDataDir, err = util.ToAbsolutePath(c.PandocDataDir)
 	sigolo.FatalCheck(err)
 
+	if strings.Contains(c.PandocExecutable, "/") {
+		// Just the name of an executable, e.g. "pandoc", is no path.
+		c.PandocExecutable, err = util.ToAbsolutePath(c.PandocExecutable)
+		sigolo.FatalCheck(err)
+	}
+
 	for i, f := range c.FontFiles {
 		absoluteFile, err := util.ToAbsolutePath(f)
 		sigolo.FatalCheck(err)
diff --git a/src/main.go b/src/main.go
index 5a68c79..58a33b6 100644
--- a/src/main.go
+++ b/src/main.go
@@ -188,6 +188,9 @@ func initialize(cliLogging string, cliConfig *config.Configuration, cliConfigFil
 		sigolo.Fatalf("Unknown logging level '%s'", cliLogging)
 	}
 
+	// Paths from CLI arguments are relative to the working directory, which might get changed later on.
+	cliConfig.MakePathsAbsoluteToWorkingDir()
+
 	sigolo.Tracef("CLI config:\n%+v", cliConfig)
 
 	if cliConfigFile != "" {
-- 
2.43.0


From f7b3f99daa33121acba61d5e8b19467e61ce4df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 38/57] fix: image commands failed for paths containing spaces

---
 src/image/image.go | 10 +++++++---
 src/util/cmd.go    |  8 --------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/image/image.go b/src/image/image.go
index fefb56d..49a0f0c 100644
--- a/src/image/image.go
+++ b/src/image/image.go
@@ -48,10 +48,14 @@ func executeCommandTemplate(commandTemplate string, inputFile string, outputFile
 	defer os.RemoveAll(tempDir)
 	tempFile := filepath.Join(tempDir, filepath.Base(outputFile))
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, inputFile)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, tempFile)
+	// Replace the placeholders after splitting the command, because the file paths might contain spaces.
+	commandParts := strings.Fields(commandTemplate)
+	for i, part := range commandParts {
+		part = strings.ReplaceAll(part, config.InputPlaceholder, inputFile)
+		commandParts[i] = strings.ReplaceAll(part, config.OutputPlaceholder, tempFile)
+	}
 
-	err = util.ExecuteCommandWithArgs(commandString, workingDirectory)
+	err = util.Execute(commandParts[0], workingDirectory, commandParts[1:]...)
 	if err != nil {
 		return err
 	}
diff --git a/src/util/cmd.go b/src/util/cmd.go
index 59c6f63..ed8f2e8 100644
--- a/src/util/cmd.go
+++ b/src/util/cmd.go
@@ -9,14 +9,6 @@ import (
 	"github.com/pkg/errors"
 )
 
-func ExecuteCommandWithArgs(commandString string, workingDirectory string) error {
-	commandParts := strings.Split(commandString, " ")
-	commandExecutable := commandParts[0]
-	commandArgs := commandParts[1:]
-
-	return Execute(commandExecutable, workingDirectory, commandArgs...)
-}
-
 func Execute(name string, workingDirectory string, arg ...string) error {
 	cmd := exec.Command(name, arg...)
 
-- 
2.43.0


From 2afbe91db2057abaff1a93010278fc2020b1ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 39/57] fix: absolute SVG sizes were overwritten, relative
 heights were not

---
 src/image/svg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 0ce51e6..0f8413e 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -56,7 +56,7 @@ func MakeSvgSizeAbsolute(filename string) error {
 	}
 	sigolo.Tracef("Found SVG attributes: %#v", attributes)
 
-	if !strings.HasSuffix(attributes.Width, "%") && strings.HasSuffix(attributes.Height, "%") {
+	if !strings.HasSuffix(attributes.Width, "%") && !strings.HasSuffix(attributes.Height, "%") {
 		// Width and height are already absolute values, nothing to do here.
 		sigolo.Debugf("SVG file '%s' does not relative width and height attributes. Found width=%s and height=%s. File stays unchanged.", filename, attributes.Width, attributes.Height)
 		return nil
-- 
2.43.0


From ec397a2a2e3e79e200df23f591b067aff94bc7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 40/57] fix: statistics were not written into the given output
 directory

---
 src/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.go b/src/main.go
index 58a33b6..1dfb0f2 100644
--- a/src/main.go
+++ b/src/main.go
@@ -488,16 +488,17 @@ func shouldRecreateHtml(htmlFilePath string, forceHtmlRecreate bool) bool {
 // ensurePathsAndClearTempDir ensures that the output folder for the given outputFile exists and clears up any
 // temporary files in the temp files folder that might still exist from previous runs.
 func ensurePathsAndClearTempDir(outputFile string) string {
-	var err error
+	outputFileInfo, err := os.Stat(outputFile)
+	isDirectory := err == nil && outputFileInfo.IsDir()
 
-	if config.Current.OutputType == config.OutputTypeStatsJson && !strings.HasSuffix(outputFile, "json") {
+	if config.Current.OutputType == config.OutputTypeStatsJson && !isDirectory && !strings.HasSuffix(outputFile, "json") {
 		// For stats, the output file is not an EPUB, therefore we change the default file in case it's the default EPUB one.
 		outputFile = defaultStatsJsonOutputFile
 		sigolo.Infof("Notice: Changing output file from default '%s' to '%s'", defaultEpubOutputFile, outputFile)
 		outputFile, err = util.ToAbsolutePath(outputFile)
 		sigolo.FatalCheck(err)
 	}
-	if config.Current.OutputType == config.OutputTypeStatsTxt && !strings.HasSuffix(outputFile, "txt") {
+	if config.Current.OutputType == config.OutputTypeStatsTxt && !isDirectory && !strings.HasSuffix(outputFile, "txt") {
 		// For stats, the output file is not an EPUB, therefore we change the default file in case it's the default EPUB one.
 		outputFile = defaultStatsTxtOutputFile
 		sigolo.Infof("Notice: Changing output file from default '%s' to '%s'", defaultEpubOutputFile, outputFile)
-- 
2.43.0


From adee4999231d19703e39644724ae9e432bb94e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 41/57] fix: file names of images beginning like a list item
 were replaced

---
 src/parser/image.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 364a3ba..17f49bb 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -258,7 +258,10 @@ func (t *Tokenizer) parseImages(content string) string {
 		}
 
 		imageContent := content[startIndex[1]:endIndex]
-		imageContent = t.tokenizeContent(t, imageContent)
+		if optionsIndex := strings.Index(imageContent, "|"); optionsIndex != -1 {
+			// Just the options are wikitext, the filename might look like e.g. a list item but isn't one.
+			imageContent = imageContent[:optionsIndex] + t.tokenizeContent(t, imageContent[optionsIndex:])
+		}
 		imageContent = t.escapeImages(imageContent)
 
 		filePrefix := strings.ToLower(strings.SplitN(imageContent, ":", 2)[0])
-- 
2.43.0


From f5a5e24b132edd66a5275ebc628949ee49138b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 42/57] fix: relative SVG sizes stayed or the wrong element got
 resized

---
 src/image/svg.go | 64 ++++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 0f8413e..f23a7ec 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -22,6 +22,11 @@ type SimpleSvgAttributes struct {
 
 var (
 	xmlNamespaceValueRegex = regexp.MustCompile(`&ns.*?;`) // Attributes like  xmlns="&ns_svg;"  cause error during Unmarshalling.
+
+	// The SVG start-tag behind the prolog, which might contain comments, processing instructions and a doctype
+	svgRootTagRegex       = regexp.MustCompile(`(?s)^(?:<!--.*?-->|<\?.*?\?>|<![^-\[>][^\[>]*(?:\[.*?\]\s*)?>|[^<])*(<(?:\w+:)?svg\s(?:[^>"']|"[^"]*"|'[^']*')*>)`)
+	svgAttributeRegex     = regexp.MustCompile(`\s([^\s=/>"']+)\s*=\s*("[^"]*"|'[^']*')`)
+	viewboxSeparatorRegex = regexp.MustCompile(`[\s,]+`)
 )
 
 func ReadSimpleAvgAttributes(filename string) (*SimpleSvgAttributes, error) {
@@ -76,44 +81,49 @@ func MakeSvgSizeAbsolute(filename string) error {
 }
 
 func replaceRelativeSizeByViewboxSize(fileString string, filename string, oldAttributes *SimpleSvgAttributes) string {
-	// Find index of "viewbox" attribute
-	viewboxIndex := strings.Index(fileString, "viewBox=\"")
-	if viewboxIndex == -1 {
-		// No "viewbox" attribute specified, so we can't change the width/height.
-		sigolo.Debugf("SVG file '%s' does not contain a 'viewBox' attribute. File stays unchanged.", filename)
+	rootTagLocation := svgRootTagRegex.FindStringSubmatchIndex(fileString)
+	if rootTagLocation == nil {
+		sigolo.Debugf("SVG file '%s' does not contain an SVG element. File stays unchanged.", filename)
 		return fileString
 	}
-
-	viewboxAttributeContentSlice := strings.SplitN(fileString[viewboxIndex:], "\"", 3)
-	if len(viewboxAttributeContentSlice) == 1 {
-		// SVG file probably broken, at least we're not able to find a correct value for the viewbox attribute.
-		sigolo.Debugf("Unable to find 'viewBox' attribute values in file '%s'. File stays unchanged.", filename)
-		return fileString
+	rootTagStart, rootTagEnd := rootTagLocation[2], rootTagLocation[3]
+	rootTag := fileString[rootTagStart:rootTagEnd]
+
+	// Find "viewbox" attribute
+	attributeLocations := svgAttributeRegex.FindAllStringSubmatchIndex(rootTag, -1)
+	viewboxAttributeString := ""
+	for _, location := range attributeLocations {
+		if rootTag[location[2]:location[3]] == "viewBox" {
+			viewboxAttributeString = rootTag[location[4]+1 : location[5]-1]
+		}
 	}
-
-	var viewboxAttributeValues []string
-	viewboxAttributeString := viewboxAttributeContentSlice[1]
 	sigolo.Tracef("Found viewBox=%s", viewboxAttributeString)
-	if strings.Contains(viewboxAttributeString, ",") {
-		viewboxAttributeValues = strings.Split(viewboxAttributeString, ",")
-	} else if strings.Contains(viewboxAttributeString, " ") {
-		viewboxAttributeValues = strings.Split(viewboxAttributeString, " ")
-	} else {
-		// No supported separator found
-		sigolo.Debugf("Unsupported separator for 'viewBox' attribute values in file '%s', file stays unchanged. Expected comma or space in attribute 'viewbox=\"%s\"'", filename, viewboxAttributeString)
-		return fileString
-	}
 
+	viewboxAttributeValues := viewboxSeparatorRegex.Split(strings.TrimSpace(viewboxAttributeString), -1)
 	if len(viewboxAttributeValues) != 4 {
-		// Wrong number of elements in viewbox
+		// No "viewbox" attribute or wrong number of elements in viewbox, so we can't change the width/height.
 		sigolo.Debugf("Wrong number of 'viewBox' attribute values in file '%s': Expected 4 but got %d. File stays unchanged.", filename, len(viewboxAttributeValues))
 		return fileString
 	}
 
 	sigolo.Tracef("Replace width=%s -> width=%s and height=%s -> height=%s", oldAttributes.Width, viewboxAttributeValues[2], oldAttributes.Height, viewboxAttributeValues[3])
-	fileString = strings.Replace(fileString, "width=\""+oldAttributes.Width+"\"", "width=\""+viewboxAttributeValues[2]+"pt\"", 1)
-	fileString = strings.Replace(fileString, "height=\""+oldAttributes.Height+"\"", "height=\""+viewboxAttributeValues[3]+"pt\"", 1)
-	return fileString
+	newValues := map[string]string{
+		"width":  viewboxAttributeValues[2] + "pt",
+		"height": viewboxAttributeValues[3] + "pt",
+	}
+	newRootTag := ""
+	lastIndex := 0
+	for _, location := range attributeLocations {
+		newValue, ok := newValues[rootTag[location[2]:location[3]]]
+		if ok {
+			// Keep everything except for the value within the quotation marks
+			newRootTag += rootTag[lastIndex:location[4]+1] + newValue
+			lastIndex = location[5] - 1
+		}
+	}
+	newRootTag += rootTag[lastIndex:]
+
+	return fileString[:rootTagStart] + newRootTag + fileString[rootTagEnd:]
 }
 
 func parseSimpleSvgAttributes(fileContent []byte, filename string) (*SimpleSvgAttributes, error) {
-- 
2.43.0


From 78114bb9d32c92dcfa5cef79c932f49886220034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 43/57] fix: svg-size-to-viewbox ignored files with upper case
 extension

---
 src/wikipedia/wikipedia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 061fbfa..9ce3137 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -240,7 +240,7 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 		return "", freshlyDownloaded, err
 	}
 
-	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(cachedFilePath) == util.FileEndingSvg {
+	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(strings.ToLower(cachedFilePath)) == util.FileEndingSvg {
 		err = image.MakeSvgSizeAbsolute(cachedFilePath)
 		if err != nil {
 			sigolo.Errorf("Unable to make size of SVG '%s' absolute. This error will be ignored, since false errors exist for the XML parsing of SVGs. Error: %+v", cachedFilePath, err)
-- 
2.43.0


From 8ccb50a042ae8af32a95661d49edefcdfbb5445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 44/57] fix: resizing of SVGs to the viewbox left torn files
 and ignored errors

---
 src/image/svg.go           | 21 +++++++++++++++------
 src/wikipedia/wikipedia.go |  7 ++++++-
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index f23a7ec..3259e5d 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -5,8 +5,10 @@ import (
 	"encoding/xml"
 	"fmt"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strings"
+	"wiki2book/cache"
 	"wiki2book/util"
 
 	"github.com/hauke96/sigolo/v2"
@@ -46,7 +48,7 @@ func ReadSimpleAvgAttributes(filename string) (*SimpleSvgAttributes, error) {
 
 // MakeSvgSizeAbsolute turns relative width and height attributes of the given SVG file into absolute values based on
 // the "viewBox" attribute. Only if both attributes (width and height) are already absolute values, nothing will be
-// changed.
+// changed. Content that cannot be parsed stays unchanged as well and is not considered an error.
 func MakeSvgSizeAbsolute(filename string) error {
 	sigolo.Debugf("Make SVG size absolute for image file '%s'", filename)
 
@@ -57,7 +59,8 @@ func MakeSvgSizeAbsolute(filename string) error {
 
 	attributes, err := parseSimpleSvgAttributes(fileBytes, filename)
 	if err != nil {
-		return err
+		sigolo.Errorf("Unable to make size of SVG '%s' absolute. This error will be ignored, since false errors exist for the XML parsing of SVGs. Error: %+v", filename, err)
+		return nil
 	}
 	sigolo.Tracef("Found SVG attributes: %#v", attributes)
 
@@ -68,16 +71,22 @@ func MakeSvgSizeAbsolute(filename string) error {
 	}
 
 	updatedSvgContent := replaceRelativeSizeByViewboxSize(string(fileBytes), filename, attributes)
+
+	// Use a temporary file to prevent broken files in the cache in case the application exits during writing.
+	tempDir, err := os.MkdirTemp(cache.GetTempPath(), "svg")
 	if err != nil {
-		return err
+		return errors.Wrapf(err, "Unable to create temporary directory within '%s'", cache.GetTempPath())
 	}
+	defer os.RemoveAll(tempDir)
+	tempFile := filepath.Join(tempDir, filepath.Base(filename))
 
-	err = os.WriteFile(filename, []byte(updatedSvgContent), 0644)
+	err = os.WriteFile(tempFile, []byte(updatedSvgContent), 0644)
 	if err != nil {
-		return errors.Wrap(err, "Error writing SVG file "+filename)
+		return errors.Wrap(err, "Error writing SVG file "+tempFile)
 	}
 
-	return nil
+	err = os.Rename(tempFile, filename)
+	return errors.Wrapf(err, "Error moving SVG file '%s' to '%s'", tempFile, filename)
 }
 
 func replaceRelativeSizeByViewboxSize(fileString string, filename string, oldAttributes *SimpleSvgAttributes) string {
diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 9ce3137..8ff9f7e 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -243,7 +243,12 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(strings.ToLower(cachedFilePath)) == util.FileEndingSvg {
 		err = image.MakeSvgSizeAbsolute(cachedFilePath)
 		if err != nil {
-			sigolo.Errorf("Unable to make size of SVG '%s' absolute. This error will be ignored, since false errors exist for the XML parsing of SVGs. Error: %+v", cachedFilePath, err)
+			// Otherwise the next run would consider the unprocessed image as finished.
+			removeErr := util.CurrentFilesystem.Remove(cachedFilePath)
+			if removeErr != nil {
+				sigolo.Warnf("Unable to remove unprocessed image '%s': %s", cachedFilePath, removeErr.Error())
+			}
+			return "", freshlyDownloaded, err
 		}
 	}
 
-- 
2.43.0


From 2f59979018d17d293c5ce5deb5f87c8881496b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 45/57] fix: manual list items with sublists were not closed

The closing tag of the sublist has been mistaken for the one of the item,
e.g. in "* <li value=4> foo" followed by "** bar".
---
 src/generator/html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index 4f88a6c..4033318 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -341,7 +341,7 @@ func (g *HtmlGenerator) expandListItem(token parser.ListItemToken) (string, erro
 			// item of the manual HTML within this list might contain additional arguments, so we use their item
 			// instead of the item from the template.
 			template = "%s"
-			if !strings.Contains(listItemString, "</li") {
+			if !strings.Contains(listItemContent, "</li") {
 				template += "</li>"
 			}
 		} else {
-- 
2.43.0


From 2e6c5f9c4ea3c4f8cc44c4ba1e3715149bdde020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 46/57] fix: spans of table cells got lost for single quotes,
 blanks and upper case

---
 src/parser/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index ec4d29c..64a934b 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -51,7 +51,7 @@ var (
 // Tables
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
-	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)="?(\d+)"?`)
+	tableRowAndColspanRegex = regexp.MustCompile(`(?i)(colspan|rowspan)\s*=\s*["']?(\d+)["']?`)
 	tableTextAlignRegex     = regexp.MustCompile(`text-align:.+?;`)
 )
 
-- 
2.43.0


From 3608af44c4955e65b748b8201ba1cecb62c5c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 47/57] fix: text alignment of table cells got lost without
 trailing semicolon

---
 src/parser/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 64a934b..86abcbd 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -52,7 +52,7 @@ var (
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
 	tableRowAndColspanRegex = regexp.MustCompile(`(?i)(colspan|rowspan)\s*=\s*["']?(\d+)["']?`)
-	tableTextAlignRegex     = regexp.MustCompile(`text-align:.+?;`)
+	tableTextAlignRegex     = regexp.MustCompile(`(?i)text-align\s*:[^;"']+;?`)
 )
 
 // References
-- 
2.43.0


From 5e6be41f98f34874083b16f1c70f1ba13a7011f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 48/57] fix: internal driver failed without cover image or
 style file

Both settings are optional, just as for the pandoc driver.
---
 src/generator/epub.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 36fae3a..68001db 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -85,14 +85,16 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	epubObj.SetLang(metadata.Language)
 	epubObj.SetTitle(metadata.Title)
 
-	internalCoverImagePath, err := epubObj.AddImage(config.Current.CoverImage, "cover.png")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error adding cover image '%s' to EPUB object", config.Current.CoverImage))
-	}
+	if config.Current.CoverImage != "" {
+		internalCoverImagePath, err := epubObj.AddImage(config.Current.CoverImage, "cover.png")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding cover image '%s' to EPUB object", config.Current.CoverImage))
+		}
 
-	err = epubObj.SetCover(internalCoverImagePath, "")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
+		err = epubObj.SetCover(internalCoverImagePath, "")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
+		}
 	}
 
 	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
@@ -116,9 +118,11 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		epubObj.EmbedImages()
 	}
 
-	_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
+	if config.Current.StyleFile != "" {
+		_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
+		}
 	}
 
 	//for _, image := range images {
-- 
2.43.0


From 88cea7bc381b9225b1ec7c40c9eb9a7f17d85222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 49/57] fix: internal driver failed for every font file

The absolute path of the font can't be its name within the EPUB.
---
 src/generator/epub.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 68001db..29f991b 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -138,7 +138,8 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	// TODO Test if this if working. The name in the CSS style and the name inside the EPUB probably need to match.
 	for _, fontFile := range config.Current.FontFiles {
 		sigolo.Debugf("Add font file %s to EPUB object", fontFile)
-		_, err = epubObj.AddFont(fontFile, fontFile)
+		// No internal name (i.e. use the name of the file), because a path is not valid within the EPUB
+		_, err = epubObj.AddFont(fontFile, "")
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error adding font file %s to EPUB object", fontFile))
 		}
-- 
2.43.0


From f2c5614ef061a64ccfdb897d4139a55c7cfb5988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:35 +0000
Subject: [PATCH 50/57] fix: title of chapters contained everything up to the
 last first-level heading

---
 src/generator/epub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 29f991b..17b5b4a 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -97,7 +97,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		}
 	}
 
-	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
+	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*?)</h1>`)
 	var fileBytes []byte
 	for _, sourceFile := range sourceFiles {
 		sigolo.Debugf("Add source file %s to EPUB object", sourceFile)
-- 
2.43.0


From f3b31c96996dd1d5be35a0a9d5f8b78e5e98ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:35 +0000
Subject: [PATCH 51/57] fix: internal driver created books without images

The images are located relative to the cache folder and their paths in the
HTML are escaped, so that the EPUB library has not found them.
---
 src/generator/epub.go | 47 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 17b5b4a..2f68071 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -2,9 +2,12 @@ package generator
 
 import (
 	"fmt"
+	"net/url"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strconv"
+	"strings"
 	"wiki2book/config"
 	"wiki2book/util"
 
@@ -98,6 +101,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	}
 
 	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*?)</h1>`)
+	internalImagePaths := map[string]string{}
 	var fileBytes []byte
 	for _, sourceFile := range sourceFiles {
 		sigolo.Debugf("Add source file %s to EPUB object", sourceFile)
@@ -106,7 +110,10 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 			return errors.Wrap(err, fmt.Sprintf("Error reading source file '%s' to add it to the EPUB object", sourceFile))
 		}
 
-		fileContent := string(fileBytes)
+		fileContent, err := embedImages(epubObj, string(fileBytes), internalImagePaths)
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding images of source file '%s' to the EPUB object", sourceFile))
+		}
 
 		sectionTitle := headingTitleRegex.FindStringSubmatch(fileContent)[1]
 
@@ -115,7 +122,6 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error reading source file %s to add it to the EPUB object", sourceFile))
 		}
-		epubObj.EmbedImages()
 	}
 
 	if config.Current.StyleFile != "" {
@@ -125,16 +131,6 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		}
 	}
 
-	//for _, image := range images {
-	//	image = strings.Split(image, ":")[1] // Remove whatever prefix (e.g. "File:" or "Datei:") this image has
-	//	imageFilepath := filepath.Join(imageCache, image)
-	//	sigolo.Debugf("Add image file %s to EPUB object", imageFilepath)
-	//	_, err = epubObj.AddImage(imageFilepath, imageFilepath)
-	//	if err != nil {
-	//		return errors.Wrap(err, fmt.Sprintf("Error adding image file %s to EPUB object", image))
-	//	}
-	//}
-
 	// TODO Test if this if working. The name in the CSS style and the name inside the EPUB probably need to match.
 	for _, fontFile := range config.Current.FontFiles {
 		sigolo.Debugf("Add font file %s to EPUB object", fontFile)
@@ -152,3 +148,30 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 
 	return nil
 }
+
+// embedImages adds all images of the given HTML to the EPUB object and returns the HTML with the paths of the images
+// within the EPUB. The images in the HTML are located relative to the cache folder. The given map contains the internal
+// paths of all images that are already part of the EPUB object.
+func embedImages(epubObj *epub.Epub, content string, internalImagePaths map[string]string) (string, error) {
+	imageSourceRegex := regexp.MustCompile(`(<img [^>]*?src=")(\./[^"]+)"`)
+
+	var firstErr error
+	content = imageSourceRegex.ReplaceAllStringFunc(content, func(imageTag string) string {
+		match := imageSourceRegex.FindStringSubmatch(imageTag)
+		imagePath, err := url.QueryUnescape(match[2])
+		if err == nil && internalImagePaths[imagePath] == "" {
+			// The names within the EPUB are part of URLs. Numbers prevent problems with special characters.
+			internalName := fmt.Sprintf("image%04d%s", len(internalImagePaths)+1, strings.ToLower(filepath.Ext(imagePath)))
+			internalImagePaths[imagePath], err = epubObj.AddImage(filepath.Join(config.Current.CacheDir, imagePath), internalName)
+		}
+		if err != nil {
+			if firstErr == nil {
+				firstErr = err
+			}
+			return imageTag
+		}
+		return match[1] + internalImagePaths[imagePath] + `"`
+	})
+
+	return content, firstErr
+}
-- 
2.43.0


From c7a3e462f0023799c51704b714946fa9eff82997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 52/57] fix: brackets that are never closed, e.g. of half-open
 intervals, got a closing bracket

---
 src/parser/link.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/link.go b/src/parser/link.go
index 51738a9..5fcaade 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -71,6 +71,12 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 		}
 
 		segments := strings.Split(splitItem, closingBrackets)
+		if len(segments) == 1 {
+			// Brackets are never closed, e.g. a half-open interval "[a, b)" -> no link, leave the text as is
+			resultSegments = append(resultSegments, openingBrackets)
+			resultSegments = append(resultSegments, splitItem)
+			continue
+		}
 
 		possibleLinkWikitext := segments[0]
 
@@ -145,11 +151,9 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 			resultSegments = append(resultSegments, fmt.Sprintf("%s%s%s", openingBrackets, possibleLinkWikitext, closingBrackets))
 		}
 
-		if len(segments) > 1 {
-			// Add all uninteresting segments behind the link
-			contentBehindLink := strings.Join(segments[1:], closingBrackets)
-			resultSegments = append(resultSegments, contentBehindLink)
-		}
+		// Add all uninteresting segments behind the link
+		contentBehindLink := strings.Join(segments[1:], closingBrackets)
+		resultSegments = append(resultSegments, contentBehindLink)
 	}
 
 	return strings.Join(resultSegments, "")
-- 
2.43.0


From 3032d962bdd837e2732c175836b683f10971111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 53/57] fix: articles and images with long names could not be
 stored

---
 src/util/files.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/util/files.go b/src/util/files.go
index 5e61034..45cb25b 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -17,6 +17,10 @@ const (
 	FileEndingPng  = ".png"
 	FileEndingPdf  = ".pdf"
 	FileEndingWebp = ".webp"
+
+	// maxFilenameLength is the maximum number of bytes of a filename. Most file systems only allow 255 bytes, a bit of
+	// space is needed for additional suffixes (e.g. of temporary or converted files).
+	maxFilenameLength = 240
 )
 
 func ToRelativePaths(paths ...string) ([]string, error) {
@@ -137,7 +141,7 @@ func ToMB(size int64) float64 {
 // SanitizeFilename URL encodes characters, that are problematic for file paths. This function assumes, that the
 // parameter is a single filename not containing non-printable characters (e.g. ASCII 0-31) or reserved words like
 // "COM1" on Windows or "." on Linux. Only usually invalid printable characters are encoded, all other characters
-// (even special characters) stay unchanged.
+// (even special characters) stay unchanged. Filenames that are too long for usual file systems are shortened.
 func SanitizeFilename(filename string) string {
 	/*
 		Not allowed in Windows filesystems:
@@ -166,6 +170,23 @@ func SanitizeFilename(filename string) string {
 	filename = strings.ReplaceAll(filename, "?", "%3F")
 	filename = strings.ReplaceAll(filename, "*", "%2A")
 
+	if len(filename) > maxFilenameLength {
+		// The hash ensures that different long names stay different.
+		hash := Hash(filename)
+		extension := filepath.Ext(filename)
+		if len(extension) > 10 {
+			extension = ""
+		}
+
+		filename = filename[:maxFilenameLength-len(hash)-len(extension)-1]
+		// Remove characters that were cut into pieces
+		filename = strings.ToValidUTF8(filename, "")
+		if i := strings.LastIndex(filename, "%"); i != -1 && i > len(filename)-3 {
+			filename = filename[:i]
+		}
+		filename += "_" + hash + extension
+	}
+
 	return filename
 }
 
-- 
2.43.0


From fabe46deb9524912a45bf1f132eb644ea5e34e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:38 +0000
Subject: [PATCH 54/57] fix: reading time of Japanese and Swedish articles used
 the default reading speed

---
 src/generator/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index fc274bb..e8e6886 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -87,7 +87,7 @@ func (g *StatsGenerator) getEstimatedReadingTimeInMinutes() int {
 		averageWordsPerMinute = 187
 	case "it":
 		averageWordsPerMinute = 188
-	case "jp":
+	case "ja":
 		averageWordsPerMinute = 193
 	case "pl":
 		averageWordsPerMinute = 166
@@ -99,7 +99,7 @@ func (g *StatsGenerator) getEstimatedReadingTimeInMinutes() int {
 		averageWordsPerMinute = 180
 	case "es":
 		averageWordsPerMinute = 218
-	case "se":
+	case "sv":
 		averageWordsPerMinute = 199
 	case "tr":
 		averageWordsPerMinute = 166
-- 
2.43.0


From 1a8ec480d8234dff1bd71dc6c47e6812455581a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:51 +0000
Subject: [PATCH 55/57] fix: drawings used by several articles were converted
 with their relative size

---
 src/wikipedia/wikipedia.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 8ff9f7e..1bc72a2 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -240,7 +240,8 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 		return "", freshlyDownloaded, err
 	}
 
-	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(strings.ToLower(cachedFilePath)) == util.FileEndingSvg {
+	// Also needed for files that are already cached, because another article might have downloaded this SVG just now.
+	if config.Current.SvgSizeToViewbox && filepath.Ext(strings.ToLower(cachedFilePath)) == util.FileEndingSvg {
 		err = image.MakeSvgSizeAbsolute(cachedFilePath)
 		if err != nil {
 			// Otherwise the next run would consider the unprocessed image as finished.
-- 
2.43.0


From bd08fcb20f96a4bcf8e62fd12e31b6e268c41232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:09 +0000
Subject: [PATCH 56/57] fix: report an error when the statistics file could not
 be stored completely

---
 src/generator/stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index e8e6886..94d2e31 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -367,6 +367,11 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 		return errors.Wrapf(err, "Error writing combined stats to output file '%s'", outputFilePath)
 	}
 
+	err = outputFile.Close()
+	if err != nil {
+		return errors.Wrapf(err, "Error closing output stats file '%s'", outputFilePath)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1e80cf72e1041acaff172e4076d886b62d064816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:14 +0000
Subject: [PATCH 57/57] fix: don't skip references right behind an empty list
 of references

---
 src/parser/reference.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 2d84f79..b9ee04d 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -86,7 +86,9 @@ func (t *Tokenizer) parseReferences(content string) string {
 			refNumberCounterForCurrentGroup := refNumberCounter[currentPlaceholderGroup]
 			refNumberToContentForCurrentGroup := refNumberToContent[currentPlaceholderGroup]
 
+			lengthBehindTag := len(content) - (startEndIndex + 1)
 			content = t.parseReferenceEndPlaceholder(content, i, startEndIndex, refNumberCounterForCurrentGroup, refNumberToContentForCurrentGroup)
+			i = len(content) - lengthBehindTag - 1 // Continue directly behind the list, which might be shorter than the tag and the line breaks before it
 			cursorWithinReferencePlaceholder = false
 			currentPlaceholderGroup = ""
 		} else if referencePlaceholderStartRegex.MatchString(content[i : startEndIndex+1]) {
-- 
2.43.0

