From b278726cc5d2b84d1bffe2e8968c227f61e32010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 01/39] fix: make a symbol's cached hash safe for concurrent
 sessions

The matcher's package-level symbols (Integer, Real, ...) are shared by all
sessions of a process; their hash was cached with a plain write.
---
 expreduce/atoms/ex_symbol.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/expreduce/atoms/ex_symbol.go b/expreduce/atoms/ex_symbol.go
index fd32cc9..8cb1c58 100644
--- a/expreduce/atoms/ex_symbol.go
+++ b/expreduce/atoms/ex_symbol.go
@@ -5,6 +5,7 @@ import (
 	"hash/fnv"
 	"sort"
 	"strings"
+	"sync/atomic"
 
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
@@ -81,8 +82,10 @@ func (sym *Symbol) IsEqual(other expreduceapi.Ex) string {
 }
 
 func (sym *Symbol) DeepCopy() expreduceapi.Ex {
-	symcopy := *sym
-	return &symcopy
+	return &Symbol{
+		Name:       sym.Name,
+		cachedHash: atomic.LoadUint64(&sym.cachedHash),
+	}
 }
 
 func (sym *Symbol) Copy() expreduceapi.Ex {
@@ -250,13 +253,14 @@ func (sym *Symbol) NeedsEval() bool {
 }
 
 func (sym *Symbol) Hash() uint64 {
-	if sym.cachedHash > 0 {
-		return sym.cachedHash
+	// Symbols can be shared between sessions, so the cache must be atomic.
+	if cached := atomic.LoadUint64(&sym.cachedHash); cached > 0 {
+		return cached
 	}
 	h := fnv.New64a()
 	h.Write([]byte{107, 10, 247, 23, 33, 221, 163, 156})
 	h.Write([]byte(sym.Name))
-	sym.cachedHash = h.Sum64()
+	atomic.StoreUint64(&sym.cachedHash, h.Sum64())
 	return h.Sum64()
 }
 
-- 
2.43.0


From 92041e873a0817dc4aae5c11c85b7656307655e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 02/39] fix: PrimePi no longer crashes after PrimePi of a
 smaller number

prime.Primes keeps a process-wide pool of segments sized for an earlier call;
a later call for a larger number indexes past their end in a goroutine of its
own, which ends the process. Prime[] avoids prime.Primes for that reason.
---
 expreduce/builtin_numbertheory.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expreduce/builtin_numbertheory.go b/expreduce/builtin_numbertheory.go
index 1db4519..525d9d0 100644
--- a/expreduce/builtin_numbertheory.go
+++ b/expreduce/builtin_numbertheory.go
@@ -144,8 +144,10 @@ func getNumberTheoryDefinitions() (defs []Definition) {
 			if n == 1 {
 				return atoms.NewInteger(big.NewInt(1))
 			}
-			// A very inefficient implementation
-			p := prime.Primes(uint64(n))
+			// A very inefficient implementation. prime.Primes keeps a pool of
+			// segments of a stale size between calls (see Prime below), so use
+			// the function without segmenting.
+			p := prime.SieveOfEratosthenes(uint64(n))
 			return atoms.NewInteger(big.NewInt(int64(len(p))))
 		},
 		SimpleExamples: []TestInstruction{
-- 
2.43.0


From 9502d440c02be888cf3582d45d8587224c2c96b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 03/39] fix: a syntax error near the end of a file no longer
 panics

---
 expreduce/easyrun.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/expreduce/easyrun.go b/expreduce/easyrun.go
index 38b45c7..8cb8d05 100644
--- a/expreduce/easyrun.go
+++ b/expreduce/easyrun.go
@@ -30,6 +30,15 @@ func EasyRun(in string, es expreduceapi.EvalStateInterface) string {
 	return EvalInterp(in, es).StringForm(stringParams)
 }
 
+// syntaxErrorExcerpt returns the start of what is left to parse.
+func syntaxErrorExcerpt(buf *bytes.Buffer) string {
+	rest := buf.String()
+	if len(rest) > 100 {
+		rest = rest[:100]
+	}
+	return rest
+}
+
 func EvalInterpMany(
 	doc string,
 	fn string,
@@ -47,7 +56,7 @@ func EvalInterpMany(
 		fmt.Printf(
 			"Syntax::sntx: %v.\nWhile parsing: %v\n\n\n",
 			err,
-			buf.String()[:100],
+			syntaxErrorExcerpt(buf),
 		)
 	}
 	return lastExpr
@@ -69,7 +78,7 @@ func ReadList(
 		fmt.Printf(
 			"Syntax::sntx: %v.\nWhile parsing: %v\n\n\n",
 			err,
-			buf.String()[:100],
+			syntaxErrorExcerpt(buf),
 		)
 	}
 	return l
-- 
2.43.0


From b88d33bdd7662fcb215f2438f68d8b1ec449153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 04/39] fix: an unterminated string is a syntax error, not an
 endless loop

The lexer of modernc.org/wl never leaves a string literal whose closing quote
is missing: it keeps reading (and storing) the end of the input until memory
runs out.
---
 expreduce/parser/interp.go | 51 +++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index 7e0b241..6bda57e 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"go/token"
 	"log"
@@ -525,17 +526,55 @@ func ReplaceSyms(in string) string {
 	return in
 }
 
+var errUnterminated = errors.New(
+	"unexpected EOF, unterminated string or comment",
+)
+
+// The number of times the lexer may ask for input past the end. It needs a few
+// of these for any input.
+const maxReadsPastEOF = 1000
+
+// eofGuard stops the lexer from asking for the end of an unterminated string
+// forever.
+type eofGuard struct {
+	buf          *bytes.Buffer
+	readsPastEOF int
+}
+
+func (g *eofGuard) ReadRune() (rune, int, error) {
+	r, size, err := g.buf.ReadRune()
+	if err != nil {
+		g.readsPastEOF++
+		if g.readsPastEOF > maxReadsPastEOF {
+			panic(errUnterminated)
+		}
+	}
+	return r, size, err
+}
+
+func parseExpression(buf *bytes.Buffer, fn string) (expr *wl.Expression, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			if r != errUnterminated {
+				panic(r)
+			}
+			expr, err = nil, errUnterminated
+		}
+	}()
+	// TODO(corywalker): use the interactive mode for proper newline handling.
+	in, err := wl.NewInput(&eofGuard{buf: buf}, true)
+	if err != nil {
+		panic(err)
+	}
+	return in.ParseExpression(token.NewFileSet().AddFile(fn, -1, 1e6))
+}
+
 func InterpBuf(
 	buf *bytes.Buffer,
 	fn string,
 	esfp evalStateForParser,
 ) (expreduceapi.Ex, error) {
-	// TODO(corywalker): use the interactive mode for proper newline handling.
-	in, err := wl.NewInput(buf, true)
-	if err != nil {
-		panic(err)
-	}
-	expr, err := in.ParseExpression(token.NewFileSet().AddFile(fn, -1, 1e6))
+	expr, err := parseExpression(buf, fn)
 	if err != nil {
 		return atoms.NewSymbol("System`Null"), err
 	}
-- 
2.43.0


From bdc14dcec89d1b879ba6cf3cb610d8a526439f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 05/39] fix: Get of a damaged definitions file fails instead of
 panicking

A truncated or corrupted file made Get dereference a nil reader or panic in
the decoder; a file whose damage the decoder did not notice was loaded, because
the checksum at its end was never read.
---
 expreduce/builtin_system.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index c1a1173..ca6e3f3 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -6,6 +6,7 @@ import (
 	"encoding/gob"
 	"flag"
 	"fmt"
+	"io"
 	"log"
 	"math/big"
 	"os"
@@ -793,11 +794,23 @@ func getSystemDefinitions() (defs []Definition) {
 				// TODO: Read as a stream and not a byte string.
 				r := bytes.NewReader(fileData[len(exprFileHeader):])
 				atoms.RegisterGobAtoms()
-				compressedReader, _ := zlib.NewReader(r)
-				decoder := gob.NewDecoder(compressedReader)
+				compressedReader, err := zlib.NewReader(r)
+				if err != nil {
+					fmt.Printf("Get: cannot read %v: %v\n", rawPath, err)
+					return atoms.NewSymbol("System`$Failed")
+				}
+				// Read everything, so that the checksum at the end is verified
+				// before any definition is used.
+				encoded, err := io.ReadAll(compressedReader)
+				if err != nil {
+					fmt.Printf("Get: cannot read %v: %v\n", rawPath, err)
+					return atoms.NewSymbol("System`$Failed")
+				}
+				decoder := gob.NewDecoder(bytes.NewReader(encoded))
 				definitions := []encodedDef{}
 				if err := decoder.Decode(&definitions); err != nil {
-					panic(err)
+					fmt.Printf("Get: cannot read %v: %v\n", rawPath, err)
+					return atoms.NewSymbol("System`$Failed")
 				}
 				compressedReader.Close()
 
-- 
2.43.0


From e29bde683f2f77b9b6c9598e78716ad48d38c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 06/39] fix: Save replaces the file in one step and reports
 failure

Save truncated the old file before writing the new one, ignored every error of
creating, writing and closing it (answering Null) and dereferenced a nil file
when it could not be created.
---
 expreduce/builtin_system.go | 71 ++++++++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 13 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index ca6e3f3..ae0bf78 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -10,6 +10,7 @@ import (
 	"log"
 	"math/big"
 	"os"
+	"path/filepath"
 	"regexp"
 	"runtime/pprof"
 	"sort"
@@ -150,6 +151,50 @@ func tryReadFile(
 	return []byte{}, "", false
 }
 
+// replaceFile makes data the contents of the named file. If it fails, or the
+// machine stops while it runs, the file has its old contents.
+func replaceFile(filename string, data []byte) error {
+	mode := os.FileMode(0644)
+	if target, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = target
+	}
+	if info, err := os.Stat(filename); err == nil {
+		if !info.Mode().IsRegular() {
+			// A device or a pipe has no contents to protect.
+			return os.WriteFile(filename, data, mode)
+		}
+		mode = info.Mode().Perm()
+	}
+	dir := filepath.Dir(filename)
+	tmp, err := os.CreateTemp(dir, filepath.Base(filename)+".tmp*")
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(mode)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), filename)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+		return err
+	}
+	// Make the new name durable, where directories can be synced.
+	if dirFile, err := os.Open(dir); err == nil {
+		dirFile.Sync()
+		dirFile.Close()
+	}
+	return nil
+}
+
 func snagUnique(
 	context string,
 	prefix string,
@@ -862,20 +907,20 @@ func getSystemDefinitions() (defs []Definition) {
 
 			atoms.RegisterGobAtoms()
 
-			file, err := os.Create(filename)
-			if err == nil {
-				// Write the header.
-				if _, err := file.Write(exprFileHeader); err != nil {
-					panic(err)
-				}
-				compressedWriter := zlib.NewWriter(file)
-				encoder := gob.NewEncoder(compressedWriter)
-				if err := encoder.Encode(definitions); err != nil {
-					panic(err)
-				}
-				compressedWriter.Close()
+			// Write the header.
+			file := &bytes.Buffer{}
+			file.Write(exprFileHeader)
+			compressedWriter := zlib.NewWriter(file)
+			encoder := gob.NewEncoder(compressedWriter)
+			if err := encoder.Encode(definitions); err != nil {
+				fmt.Printf("Save: cannot encode the definitions: %v\n", err)
+				return atoms.NewSymbol("System`$Failed")
+			}
+			compressedWriter.Close()
+			if err := replaceFile(filename, file.Bytes()); err != nil {
+				fmt.Printf("Save: cannot write %v: %v\n", filename, err)
+				return atoms.NewSymbol("System`$Failed")
 			}
-			file.Close()
 
 			return atoms.NewSymbol("System`Null")
 		},
-- 
2.43.0


From cb5aa809faf5117f17f5fa6eb0c5f002e11b5899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 07/39] fix: WriteString accepts "stderr" and answers $Failed
 when nothing was written

---
 expreduce/builtin_system.go              | 5 ++++-
 expreduce/streammanager/streammanager.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index ae0bf78..618ebad 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -1115,8 +1115,11 @@ func getSystemDefinitions() (defs []Definition) {
 				)
 				return this
 			}
-			es.GetStreamManager().
+			ok = es.GetStreamManager().
 				WriteString(streamName, streamIndex, str.GetValue())
+			if !ok {
+				return atoms.NewSymbol("System`$Failed")
+			}
 			return atoms.NewSymbol("System`Null")
 		},
 	})
diff --git a/expreduce/streammanager/streammanager.go b/expreduce/streammanager/streammanager.go
index 57ff85d..d2ae21b 100644
--- a/expreduce/streammanager/streammanager.go
+++ b/expreduce/streammanager/streammanager.go
@@ -33,7 +33,7 @@ func (sm streamManagerImpl) fillMissingIndex(key *streamKey) {
 	if key.id == -1 {
 		if key.name == "stdout" {
 			key.id = 1
-		} else if key.name == "stdin" {
+		} else if key.name == "stderr" {
 			key.id = 2
 		}
 	}
-- 
2.43.0


From c60bfce427561618c84358d5073905d7c589352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 08/39] fix: every session has a random number generator of its
 own

SeedRandom and RandomReal used the process-wide generator, so that sessions
disturbed each other's seeded sequences.
---
 expreduce/builtin_random.go | 29 ++++++++++++++++++++++++++---
 expreduce/evalstate.go      |  6 ++++++
 pkg/expreduceapi/cas.go     |  7 +++++++
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/expreduce/builtin_random.go b/expreduce/builtin_random.go
index 3662866..09bbd23 100644
--- a/expreduce/builtin_random.go
+++ b/expreduce/builtin_random.go
@@ -3,11 +3,35 @@ package expreduce
 import (
 	"math/big"
 	"math/rand"
+	"sync"
 
 	"github.com/corywalker/expreduce/expreduce/atoms"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
+// sessionRandom is a random number generator that the concurrent evaluations of
+// one session can share.
+type sessionRandom struct {
+	mu  sync.Mutex
+	rng *rand.Rand
+}
+
+func newSessionRandom() *sessionRandom {
+	return &sessionRandom{rng: rand.New(rand.NewSource(1))}
+}
+
+func (sr *sessionRandom) Seed(seed int64) {
+	sr.mu.Lock()
+	defer sr.mu.Unlock()
+	sr.rng.Seed(seed)
+}
+
+func (sr *sessionRandom) Float64() float64 {
+	sr.mu.Lock()
+	defer sr.mu.Unlock()
+	return sr.rng.Float64()
+}
+
 func getRandomDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name: "RandomReal",
@@ -19,7 +43,7 @@ func getRandomDefinitions() (defs []Definition) {
 				return this
 			}
 
-			return atoms.NewReal(big.NewFloat(rand.Float64()))
+			return atoms.NewReal(big.NewFloat(es.GetRandom().Float64()))
 		},
 	})
 	defs = append(defs, Definition{
@@ -34,8 +58,7 @@ func getRandomDefinitions() (defs []Definition) {
 
 			asInt, isInt := this.GetParts()[1].(*atoms.Integer)
 			if isInt {
-				//nolint:staticcheck
-				rand.Seed(asInt.Val.Int64())
+				es.GetRandom().Seed(asInt.Val.Int64())
 				return atoms.NewSymbol("System`Null")
 			}
 
diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 4d7c7f8..4b7783a 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -33,6 +33,7 @@ type EvalState struct {
 	toStringFns             map[string]expreduceapi.ToStringFnType
 	profilingToStringParams expreduceapi.ToStringParams
 	streamManager           expreduceapi.StreamManager
+	random                  expreduceapi.Random
 }
 
 func (es *EvalState) GetDefined(name string) (expreduceapi.Def, bool) {
@@ -94,6 +95,7 @@ func (es *EvalState) load(def Definition) {
 func (es *EvalState) Init(loadAllDefs bool) {
 	es.defined = newDefinitionMap()
 	es.streamManager = streammanager.NewStreamManager()
+	es.random = newSessionRandom()
 	es.toStringFns = make(map[string]expreduceapi.ToStringFnType)
 	// These are fundamental symbols that affect even the parsing of
 	// expressions. We must define them before even the bootstrap definitions.
@@ -760,3 +762,7 @@ func maskNonConditional(e expreduceapi.Ex) expreduceapi.Ex {
 func (es *EvalState) GetStreamManager() expreduceapi.StreamManager {
 	return es.streamManager
 }
+
+func (es *EvalState) GetRandom() expreduceapi.Random {
+	return es.random
+}
diff --git a/pkg/expreduceapi/cas.go b/pkg/expreduceapi/cas.go
index 8dee646..62913df 100644
--- a/pkg/expreduceapi/cas.go
+++ b/pkg/expreduceapi/cas.go
@@ -78,6 +78,7 @@ type EvalStateInterface interface {
 
 	GetTimeCounter() *timecounter.Group
 	GetStreamManager() StreamManager
+	GetRandom() Random
 }
 
 type ExpressionInterface interface {
@@ -112,6 +113,12 @@ type DefinitionMap interface {
 	CopyDefs() DefinitionMap
 }
 
+// Random is a session's source of random numbers.
+type Random interface {
+	Seed(seed int64)
+	Float64() float64
+}
+
 type StreamManager interface {
 	WriteString(streamName string, streamIndex int64, toWrite string) bool
 	AsExpr() Ex
-- 
2.43.0


From 2af63d7a9ccbe51be72636906ef1b6247a1bd463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 09/39] fix: profiling tables add up and print in a fixed order

Merging counters counted each key once however often it had been counted, and
keys with equal times were printed in map order, beyond the limit.
---
 expreduce/timecounter/timecounter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expreduce/timecounter/timecounter.go b/expreduce/timecounter/timecounter.go
index 78cc356..3d41ed3 100644
--- a/expreduce/timecounter/timecounter.go
+++ b/expreduce/timecounter/timecounter.go
@@ -28,7 +28,8 @@ func (tc *timeCounter) addTime(key string, elapsed float64) {
 
 func (tc *timeCounter) update(other *timeCounter) {
 	for k, v := range other.times {
-		tc.addTime(k, v)
+		tc.times[k] += v
+		tc.counts[k] += other.counts[k]
 	}
 }
 
@@ -48,7 +49,11 @@ func (tc *timeCounter) truncatedString(numToPrint int) string {
 		if numPrinted >= numToPrint {
 			break
 		}
+		sort.Strings(n[k])
 		for _, s := range n[k] {
+			if numPrinted >= numToPrint {
+				break
+			}
 			count := tc.counts[s]
 			buffer.WriteString(fmt.Sprintf("%v, %v, %v\n", k, count, s))
 			numPrinted++
-- 
2.43.0


From 70df4b8ade086b0adc8982261b1612504be72485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 10/39] fix: concurrent evaluations can record profiling times

---
 expreduce/timecounter/timecounter.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/expreduce/timecounter/timecounter.go b/expreduce/timecounter/timecounter.go
index 3d41ed3..6471f14 100644
--- a/expreduce/timecounter/timecounter.go
+++ b/expreduce/timecounter/timecounter.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"sync"
 )
 
 type timeMap map[string]float64
@@ -83,6 +84,8 @@ const (
 
 // Group collects eval-related timeCounters.
 type Group struct {
+	// Evaluations of one session can run concurrently.
+	mu                  sync.Mutex
 	defTimeCounter      timeCounter
 	lhsDefTimeCounter   timeCounter
 	evalTimeCounter     timeCounter
@@ -91,6 +94,8 @@ type Group struct {
 
 // Init initializes the Group with empty maps.
 func (tcg *Group) Init() {
+	tcg.mu.Lock()
+	defer tcg.mu.Unlock()
 	tcg.defTimeCounter.init()
 	tcg.lhsDefTimeCounter.init()
 	tcg.evalTimeCounter.init()
@@ -104,6 +109,8 @@ func (tcg *Group) AddTime(
 	key string,
 	elapsed float64,
 ) {
+	tcg.mu.Lock()
+	defer tcg.mu.Unlock()
 	if counter == CounterGroupDefTime {
 		tcg.defTimeCounter.addTime(key, elapsed)
 	} else if counter == CounterGroupLHSDefTime {
@@ -117,6 +124,8 @@ func (tcg *Group) AddTime(
 
 // Update adds another Group to this one.
 func (tcg *Group) Update(other *Group) {
+	tcg.mu.Lock()
+	defer tcg.mu.Unlock()
 	tcg.defTimeCounter.update(&other.defTimeCounter)
 	tcg.lhsDefTimeCounter.update(&other.lhsDefTimeCounter)
 	tcg.evalTimeCounter.update(&other.evalTimeCounter)
@@ -125,6 +134,8 @@ func (tcg *Group) Update(other *Group) {
 
 // Prints the counter group as a formatted string.
 func (tcg *Group) String() string {
+	tcg.mu.Lock()
+	defer tcg.mu.Unlock()
 	var buffer bytes.Buffer
 	buffer.WriteString(tcg.defTimeCounter.string() + "\n")
 	buffer.WriteString(tcg.lhsDefTimeCounter.string() + "\n")
-- 
2.43.0


From c2b23228bb955617cfcab6494c6f10ce62f6d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 11/39] fix: Throw and interrupts leave loops at once and
 restore their variables

An exception or an interrupt inside Do, Table, Sum and Product left the
iteration variable defined, While never ended, results of evaluations that were
cut short were assigned to variables, and the flag was read and written without
synchronisation.  EasyRun left a pending exception for the next input.
---
 expreduce/builtin_flowcontrol.go | 11 ++++++++++-
 expreduce/builtin_list.go        |  8 +++++++-
 expreduce/builtin_system.go      |  3 +++
 expreduce/easyrun.go             |  6 +++++-
 expreduce/eval.go                | 14 +++++++++++++-
 expreduce/evalstate.go           | 16 +++++++++++-----
 expreduce/iterspec/iterspec.go   |  8 +++++++-
 expreduce/matcher/matchq.go      |  3 +++
 pkg/expreduceapi/cas.go          |  1 +
 9 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index 43c759d..ebed831 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -97,6 +97,9 @@ func getFlowControlDefinitions() (defs []Definition) {
 			)
 			for isTrue {
 				tmpRes := es.Eval(this.GetParts()[2].DeepCopy())
+				if es.HasThrown() {
+					return es.Thrown()
+				}
 				retVal, isReturn := tryReturnValue(tmpRes, nil, es)
 				if isReturn {
 					return retVal
@@ -122,6 +125,9 @@ func getFlowControlDefinitions() (defs []Definition) {
 				if es.HasThrown() {
 					return es.Thrown()
 				}
+				if es.IsInterrupted() {
+					return atoms.NewSymbol("System`$Aborted")
+				}
 				if _, isReturn := atoms.HeadAssertion(toReturn, "System`Return"); isReturn {
 					return toReturn
 				}
@@ -185,12 +191,16 @@ func getFlowControlDefinitions() (defs []Definition) {
 				if isOk {
 					// Simulate evaluation within Block[]
 					mis.TakeVarSnapshot(es)
+					defer mis.RestoreVarSnapshot(es)
 					for mis.Cont() {
 						mis.DefineCurrent(es)
 						res := es.Eval(this.GetParts()[1].DeepCopy())
 						if es.HasThrown() {
 							return es.Thrown()
 						}
+						if es.IsInterrupted() {
+							return atoms.NewSymbol("System`$Aborted")
+						}
 						if asReturn, isReturn := atoms.HeadAssertion(res, "System`Return"); isReturn {
 							if len(asReturn.GetParts()) < 2 {
 								return atoms.NewSymbol("System`Null")
@@ -199,7 +209,6 @@ func getFlowControlDefinitions() (defs []Definition) {
 						}
 						mis.Next()
 					}
-					mis.RestoreVarSnapshot(es)
 					return atoms.NewSymbol("System`Null")
 				}
 			}
diff --git a/expreduce/builtin_list.go b/expreduce/builtin_list.go
index 4780baa..9a35782 100644
--- a/expreduce/builtin_list.go
+++ b/expreduce/builtin_list.go
@@ -271,15 +271,21 @@ func getListDefinitions() (defs []Definition) {
 				if isOk {
 					// Simulate evaluation within Block[]
 					mis.TakeVarSnapshot(es)
+					defer mis.RestoreVarSnapshot(es)
 					toReturn := atoms.NewExpression(
 						[]expreduceapi.Ex{atoms.NewSymbol("System`List")},
 					)
 					for mis.Cont() {
 						mis.DefineCurrent(es)
 						toReturn.AppendEx(es.Eval(this.GetPart(1).DeepCopy()))
+						if es.HasThrown() {
+							return es.Thrown()
+						}
+						if es.IsInterrupted() {
+							return atoms.NewSymbol("System`$Aborted")
+						}
 						mis.Next()
 					}
-					mis.RestoreVarSnapshot(es)
 					return toReturn
 				}
 			}
diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 618ebad..bda11ac 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -623,6 +623,9 @@ func getSystemDefinitions() (defs []Definition) {
 					for i := range lhs.GetParts() {
 						lhs.GetParts()[i] = es.Eval(lhs.GetParts()[i])
 					}
+					if es.IsInterrupted() {
+						return atoms.NewSymbol("System`$Aborted")
+					}
 				}
 				es.Define(lhs, this.GetParts()[2])
 			}
diff --git a/expreduce/easyrun.go b/expreduce/easyrun.go
index 8cb8d05..8489020 100644
--- a/expreduce/easyrun.go
+++ b/expreduce/easyrun.go
@@ -27,7 +27,11 @@ func EasyRun(in string, es expreduceapi.EvalStateInterface) string {
 		ContextPath: contextPath,
 		Esi:         es,
 	}
-	return EvalInterp(in, es).StringForm(stringParams)
+	res := EvalInterp(in, es)
+	// Neither an exception nobody caught nor an interrupt is for the next input.
+	es.Throw(nil)
+	es.EndInterrupt()
+	return res.StringForm(stringParams)
 }
 
 // syntaxErrorExcerpt returns the start of what is left to parse.
diff --git a/expreduce/eval.go b/expreduce/eval.go
index c7276d3..5d65ea3 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -57,6 +57,9 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 	insideDefinition := false
 	for currExHash != lastExHash {
 		lastExHash = currExHash
+		if es.IsInterrupted() {
+			return atoms.NewSymbol("System`$Aborted")
+		}
 		curr, isExpr := currEx.(*atoms.Expression)
 		if *checkhashes {
 			if isExpr && curr.EvaledHash != 0 && currExHash != curr.EvaledHash {
@@ -142,10 +145,16 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 			}
 			oldHash := curr.GetParts()[i].Hash()
 			//fmt.Println(curr, i)
-			curr.GetParts()[i] = es.Eval(curr.GetParts()[i])
+			evaled := es.Eval(curr.GetParts()[i])
 			if es.HasThrown() {
 				return es.Thrown()
 			}
+			// The functions further out must not see the results of an
+			// evaluation that was cut short.
+			if es.IsInterrupted() {
+				return atoms.NewSymbol("System`$Aborted")
+			}
+			curr.GetParts()[i] = evaled
 			if oldHash != curr.GetParts()[i].Hash() {
 				curr.CachedHash = 0
 			}
@@ -259,6 +268,9 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 				AddTime(timecounter.CounterGroupHeadEvalTime, currHeadStr, elapsed)
 		}
 	}
+	if es.IsInterrupted() {
+		return atoms.NewSymbol("System`$Aborted")
+	}
 	curr, isExpr := currEx.(*atoms.Expression)
 	if isExpr {
 		curr.SetNeedsEval(false)
diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 4b7783a..ac3fcdb 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"os/signal"
 	"strings"
+	"sync/atomic"
 	"time"
 
 	"github.com/corywalker/expreduce/expreduce/atoms"
@@ -29,7 +30,7 @@ type EvalState struct {
 	freeze                  bool
 	thrown                  expreduceapi.ExpressionInterface
 	reapSown                expreduceapi.ExpressionInterface
-	interrupted             bool
+	interrupted             atomic.Bool
 	toStringFns             map[string]expreduceapi.ToStringFnType
 	profilingToStringParams expreduceapi.ToStringParams
 	streamManager           expreduceapi.StreamManager
@@ -292,7 +293,7 @@ func NewEvalState() *EvalState {
 	signal.Notify(signalChan, os.Interrupt)
 	go func() {
 		for range signalChan {
-			es.interrupted = true
+			es.interrupted.Store(true)
 		}
 	}()
 
@@ -629,7 +630,13 @@ func (es *EvalState) SetFrozen(frozen bool) {
 }
 
 func (es *EvalState) IsInterrupted() bool {
-	return es.interrupted
+	return es.interrupted.Load()
+}
+
+// EndInterrupt makes the session ready for the next input after the one that
+// was interrupted.
+func (es *EvalState) EndInterrupt() {
+	es.interrupted.Store(false)
 }
 
 func (es *EvalState) GetLogger() expreduceapi.LoggingInterface {
@@ -715,9 +722,8 @@ func (es *EvalState) ProcessTopLevelResult(
 
 		// Clear exception
 		es.Throw(nil)
-	} else {
-		es.interrupted = false
 	}
+	es.EndInterrupt()
 	thisLine, _ := es.GetSymDef("System`$Line")
 	es.Eval(
 		atoms.E(atoms.S("SetDelayed"), atoms.E(atoms.S("In"), thisLine), in),
diff --git a/expreduce/iterspec/iterspec.go b/expreduce/iterspec/iterspec.go
index 65931eb..ae4ec7a 100644
--- a/expreduce/iterspec/iterspec.go
+++ b/expreduce/iterspec/iterspec.go
@@ -256,15 +256,21 @@ func EvalIterationFunc(
 		if isOk {
 			// Simulate evaluation within Block[]
 			mis.TakeVarSnapshot(es)
+			defer mis.RestoreVarSnapshot(es)
 			var toReturn expreduceapi.Ex = init
 			for mis.Cont() {
 				mis.DefineCurrent(es)
 				toReturn = es.Eval(
 					(atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol(op), toReturn, es.Eval(expr.GetParts()[1].DeepCopy())})),
 				)
+				if es.HasThrown() {
+					return es.Thrown()
+				}
+				if es.IsInterrupted() {
+					return atoms.NewSymbol("System`$Aborted")
+				}
 				mis.Next()
 			}
-			mis.RestoreVarSnapshot(es)
 			return toReturn
 		}
 	}
diff --git a/expreduce/matcher/matchq.go b/expreduce/matcher/matchq.go
index be537ce..68b9bce 100644
--- a/expreduce/matcher/matchq.go
+++ b/expreduce/matcher/matchq.go
@@ -550,6 +550,9 @@ func (smi *sequenceMatchIter) Next() (bool, *PDManager, bool) {
 			return true, smi.ami.pm, false
 		}
 		smi.iteratingAmi = false
+		if smi.es.IsInterrupted() {
+			break
+		}
 		if !smi.ai.next() {
 			break
 		}
diff --git a/pkg/expreduceapi/cas.go b/pkg/expreduceapi/cas.go
index 62913df..139c038 100644
--- a/pkg/expreduceapi/cas.go
+++ b/pkg/expreduceapi/cas.go
@@ -62,6 +62,7 @@ type EvalStateInterface interface {
 	IsFrozen() bool
 	SetFrozen(frozen bool)
 	IsInterrupted() bool
+	EndInterrupt()
 	GetStringDef(name string, defaultVal string) string
 	GetListDef(name string) ExpressionInterface
 	Throw(e ExpressionInterface)
-- 
2.43.0


From 6811263e435a696acf125763e5fac5261e365f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 12/39] fix: concurrent definitions in one session are not lost

---
 expreduce/definition_map.go |   6 +-
 expreduce/evalstate.go      | 168 +++++++++++++++++++-----------------
 2 files changed, 92 insertions(+), 82 deletions(-)

diff --git a/expreduce/definition_map.go b/expreduce/definition_map.go
index b7a70c6..e964f99 100644
--- a/expreduce/definition_map.go
+++ b/expreduce/definition_map.go
@@ -20,11 +20,11 @@ func (dm threadSafeDefinitionMap) Set(key string, value expreduceapi.Def) {
 }
 
 func (dm threadSafeDefinitionMap) Get(key string) (expreduceapi.Def, bool) {
-	if !dm.internalMap.Has(key) {
+	value, ok := dm.internalMap.Get(key)
+	if !ok {
 		return expreduceapi.Def{}, false
 	}
-	value, ok := dm.internalMap.Get(key)
-	return value.(expreduceapi.Def), ok
+	return value.(expreduceapi.Def), true
 }
 
 func (dm threadSafeDefinitionMap) GetDef(key string) expreduceapi.Def {
diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index ac3fcdb..a267949 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -2,10 +2,10 @@ package expreduce
 
 import (
 	"fmt"
-	"log"
 	"os"
 	"os/signal"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -23,7 +23,10 @@ type EvalState struct {
 	// Embedded type for logging
 	logging.CASLogger
 
-	defined                 expreduceapi.DefinitionMap
+	defined expreduceapi.DefinitionMap
+	// Held while a definition is read, changed and written back. Evaluations
+	// of one session can run concurrently.
+	defineMu                *sync.Mutex
 	trace                   expreduceapi.ExpressionInterface
 	NoInit                  bool
 	timeCounter             timecounter.Group
@@ -73,10 +76,7 @@ func (es *EvalState) load(def Definition) {
 
 	}
 
-	newDef, foundDef := es.defined.Get(def.Name)
-	if !foundDef {
-		newDef = expreduceapi.Def{}
-	}
+	newDef, _ := es.defined.Get(def.Name)
 
 	if def.legacyEvalFn != nil {
 		newDef.LegacyEvalFn = def.legacyEvalFn
@@ -95,6 +95,7 @@ func (es *EvalState) load(def Definition) {
 
 func (es *EvalState) Init(loadAllDefs bool) {
 	es.defined = newDefinitionMap()
+	es.defineMu = &sync.Mutex{}
 	es.streamManager = streammanager.NewStreamManager()
 	es.random = newSessionRandom()
 	es.toStringFns = make(map[string]expreduceapi.ToStringFnType)
@@ -309,14 +310,15 @@ func (es *EvalState) GetDef(
 	name string,
 	lhs expreduceapi.Ex,
 ) (expreduceapi.Ex, bool, expreduceapi.ExpressionInterface) {
-	if !es.IsDef(name) {
+	defined, isDef := es.defined.Get(name)
+	if !isDef {
 		return nil, false, nil
 	}
 	// Special case for checking simple variable definitions like "a = 5".
 	// TODO: Perhaps split out single var values into the Definition to avoid
 	// iterating over every one.
 	if _, lhsIsSym := lhs.(*atoms.Symbol); lhsIsSym {
-		for _, def := range es.defined.GetDef(name).Downvalues {
+		for _, def := range defined.Downvalues {
 			if hp, hpDef := atoms.HeadAssertion(def.Rule.GetParts()[1], "System`HoldPattern"); hpDef {
 				if len(hp.GetParts()) == 2 {
 					if _, symDef := hp.GetParts()[1].(*atoms.Symbol); symDef {
@@ -328,8 +330,8 @@ func (es *EvalState) GetDef(
 		return nil, false, nil
 	}
 	es.Debugf("Inside GetDef(\"%s\",%s)", name, lhs)
-	for i := range es.defined.GetDef(name).Downvalues {
-		def := es.defined.GetDef(name).Downvalues[i].Rule
+	for i := range defined.Downvalues {
+		def := defined.Downvalues[i].Rule
 
 		defStr, lhsDefStr := "", ""
 		started := int64(0)
@@ -385,10 +387,9 @@ func (es *EvalState) defineAttrs(sym *atoms.Symbol, rhs expreduceapi.Ex) {
 		stringAttrs = append(stringAttrs, attrSym.Name[7:])
 	}
 	attrs := atoms.StringsToAttributes(stringAttrs)
-	if !es.IsDef(sym.Name) {
-		es.defined.Set(sym.Name, expreduceapi.Def{})
-	}
-	tmp := es.defined.GetDef(sym.Name)
+	es.defineMu.Lock()
+	defer es.defineMu.Unlock()
+	tmp, _ := es.defined.Get(sym.Name)
 	tmp.Attributes = attrs
 	es.defined.Set(sym.Name, tmp)
 }
@@ -412,21 +413,33 @@ func (es *EvalState) defineDownValues(sym *atoms.Symbol, rhs expreduceapi.Ex) {
 		dvs = append(dvs, expreduceapi.DownValue{Rule: rule})
 	}
 
-	if !es.IsDef(sym.Name) {
-		es.defined.Set(sym.Name, expreduceapi.Def{})
-	}
-	tmp := es.defined.GetDef(sym.Name)
+	es.defineMu.Lock()
+	defer es.defineMu.Unlock()
+	tmp, _ := es.defined.Get(sym.Name)
 	tmp.Downvalues = dvs
 	es.defined.Set(sym.Name, tmp)
 }
 
 func (es *EvalState) MarkSeen(name string) {
-	if !es.IsDef(name) {
-		newDef := expreduceapi.Def{
-			Downvalues: []expreduceapi.DownValue{},
-		}
-		es.defined.Set(name, newDef)
+	es.ClaimName(name)
+}
+
+// ClaimName marks a symbol as seen and returns if it was not before. Of several
+// concurrent callers, only one is told so.
+func (es *EvalState) ClaimName(name string) bool {
+	if es.IsDef(name) {
+		return false
 	}
+	es.defineMu.Lock()
+	defer es.defineMu.Unlock()
+	if es.IsDef(name) {
+		return false
+	}
+	newDef := expreduceapi.Def{
+		Downvalues: []expreduceapi.DownValue{},
+	}
+	es.defined.Set(name, newDef)
+	return true
 }
 
 // Attempts to compute a specificity metric for a rule. Higher specificity rules
@@ -521,84 +534,79 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 		}
 	}
 	if name == "" {
-		log.Fatalf("Trying to define an invalid lhs: %v", lhs)
+		fmt.Printf("Set::setraw: Cannot assign to raw object %v.\n\n", lhs)
+		return
 	}
 
 	es.Debugf("Inside es.Define(\"%s\",%s,%s)", name, lhs, rhs)
 	heldLHS := atoms.E(atoms.S("HoldPattern"), lhs)
-	if !es.IsDef(name) {
-		newDef := expreduceapi.Def{
-			Downvalues: []expreduceapi.DownValue{
-				expreduceapi.DownValue{
-					Rule: atoms.NewExpression([]expreduceapi.Ex{
-						atoms.NewSymbol("System`Rule"), heldLHS, rhs,
-					}),
-				},
-			},
-		}
-		es.defined.Set(name, newDef)
-		return
-	}
+	newRule := atoms.NewExpression([]expreduceapi.Ex{
+		atoms.NewSymbol("System`Rule"), heldLHS, rhs,
+	})
+
+	es.defineMu.Lock()
+	defer es.defineMu.Unlock()
+	// The list of rules is replaced, never changed in place: an evaluation that
+	// runs concurrently may be reading it.
+	def, _ := es.defined.Get(name)
+	oldRules := def.Downvalues
+	defer func() { es.defined.Set(name, def) }()
 
 	// Overwrite identical rules.
-	for _, dv := range es.defined.GetDef(name).Downvalues {
+	for i, dv := range oldRules {
 		existingRule := dv.Rule
 		existingLHS := existingRule.GetParts()[1]
 		if atoms.IsSameQ(existingLHS, heldLHS) {
-			es.defined.LockKey(name)
 			existingRHSCond := maskNonConditional(existingRule.GetParts()[2])
 			newRHSCond := maskNonConditional(rhs)
 			if atoms.IsSameQ(existingRHSCond, newRHSCond) {
-				dv.Rule.GetParts()[2] = rhs
-				es.defined.UnlockKey(name)
+				newRules := append([]expreduceapi.DownValue{}, oldRules...)
+				newRules[i].Rule = atoms.NewExpression([]expreduceapi.Ex{
+					existingRule.GetParts()[0], existingLHS, rhs,
+				})
+				def.Downvalues = newRules
 				return
 			}
-			es.defined.UnlockKey(name)
 		}
 	}
 
+	if len(oldRules) == 0 {
+		def.Downvalues = []expreduceapi.DownValue{{Rule: newRule}}
+		return
+	}
+
 	// Insert into definitions for name. Maintain order of decreasing
 	// complexity.
-	var tmp = es.defined.GetDef(name)
 	newSpecificity := ruleSpecificity(heldLHS, rhs, name, es)
-	for i, dv := range es.defined.GetDef(name).Downvalues {
-		if dv.Specificity == 0 {
-			es.defined.LockKey(name)
-			dv.Specificity = ruleSpecificity(
-				dv.Rule.GetParts()[1],
-				dv.Rule.GetParts()[2],
-				name,
-				es,
-			)
-			es.defined.UnlockKey(name)
-		}
-		if dv.Specificity < newSpecificity {
-			newRule := atoms.NewExpression(
-				[]expreduceapi.Ex{atoms.NewSymbol("System`Rule"), heldLHS, rhs},
-			)
-			tmp.Downvalues = append(
-				tmp.Downvalues[:i],
-				append(
-					[]expreduceapi.DownValue{expreduceapi.DownValue{
-						Rule:        newRule,
-						Specificity: newSpecificity,
-					}},
-					es.defined.GetDef(name).Downvalues[i:]...,
-				)...,
-			)
-			es.defined.Set(name, tmp)
-			return
+	newRules := make([]expreduceapi.DownValue, 0, len(oldRules)+1)
+	inserted := false
+	for _, dv := range oldRules {
+		if !inserted {
+			if dv.Specificity == 0 {
+				dv.Specificity = ruleSpecificity(
+					dv.Rule.GetParts()[1],
+					dv.Rule.GetParts()[2],
+					name,
+					es,
+				)
+			}
+			if dv.Specificity < newSpecificity {
+				newRules = append(newRules, expreduceapi.DownValue{
+					Rule:        newRule,
+					Specificity: newSpecificity,
+				})
+				inserted = true
+			}
 		}
+		newRules = append(newRules, dv)
 	}
-	tmp.Downvalues = append(
-		tmp.Downvalues,
-		expreduceapi.DownValue{
-			Rule: atoms.NewExpression(
-				[]expreduceapi.Ex{atoms.NewSymbol("System`Rule"), heldLHS, rhs},
-			),
-		},
-	)
-	es.defined.Set(name, tmp)
+	if !inserted {
+		newRules = append(newRules, expreduceapi.DownValue{
+			Rule:        newRule,
+			Specificity: newSpecificity,
+		})
+	}
+	def.Downvalues = newRules
 }
 
 func (es *EvalState) ClearAll() {
@@ -606,6 +614,8 @@ func (es *EvalState) ClearAll() {
 }
 
 func (es *EvalState) Clear(name string) {
+	es.defineMu.Lock()
+	defer es.defineMu.Unlock()
 	_, ok := es.defined.Get(name)
 	if ok {
 		es.defined.Set(name, expreduceapi.Def{})
-- 
2.43.0


From 7e387b68070dd36728298f195f91a367f5000047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 13/39] fix: elements of a ParallelTable do not disturb one
 another, iterations restore all definitions of their variables

---
 expreduce/builtin_list.go      |  16 ++++-
 expreduce/definition_map.go    | 128 ++++++++++++++++++++++++++++++---
 expreduce/evalstate.go         |  55 ++++++++++++--
 expreduce/iterspec/iterspec.go |  20 +++---
 pkg/expreduceapi/cas.go        |   4 ++
 5 files changed, 202 insertions(+), 21 deletions(-)

diff --git a/expreduce/builtin_list.go b/expreduce/builtin_list.go
index 9a35782..de2802d 100644
--- a/expreduce/builtin_list.go
+++ b/expreduce/builtin_list.go
@@ -316,16 +316,30 @@ func getListDefinitions() (defs []Definition) {
 						mis.Next()
 					}
 					var wg sync.WaitGroup
+					forks := make(
+						[]expreduceapi.EvalStateInterface,
+						len(toReturn.GetParts()),
+					)
 					for i := 1; i < len(toReturn.GetParts()); i++ {
+						forks[i] = es.Fork()
 						wg.Add(1)
 						go func(idx int) {
 							defer wg.Done()
-							toReturn.GetParts()[idx] = es.Eval(
+							toReturn.GetParts()[idx] = forks[idx].Eval(
 								toReturn.GetParts()[idx],
 							)
 						}(i)
 					}
 					wg.Wait()
+					for _, fork := range forks[1:] {
+						es.Join(fork)
+					}
+					if es.HasThrown() {
+						return es.Thrown()
+					}
+					if es.IsInterrupted() {
+						return atoms.NewSymbol("System`$Aborted")
+					}
 					return toReturn
 				}
 			}
diff --git a/expreduce/definition_map.go b/expreduce/definition_map.go
index e964f99..d70ba34 100644
--- a/expreduce/definition_map.go
+++ b/expreduce/definition_map.go
@@ -1,6 +1,8 @@
 package expreduce
 
 import (
+	"sync"
+
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 	"github.com/orcaman/concurrent-map"
 )
@@ -53,15 +55,125 @@ func (dm threadSafeDefinitionMap) CopyDefs() expreduceapi.DefinitionMap {
 	out := newDefinitionMap()
 	for mapTuple := range dm.internalMap.IterBuffered() {
 		k, v := mapTuple.Key, mapTuple.Val.(expreduceapi.Def)
-		newDef := expreduceapi.Def{}
-		for _, dv := range v.Downvalues {
-			newDv := expreduceapi.DownValue{
-				Rule:        dv.Rule.DeepCopy().(expreduceapi.ExpressionInterface),
-				Specificity: dv.Specificity,
-			}
-			newDef.Downvalues = append(newDef.Downvalues, newDv)
+		out.Set(k, copyDef(v))
+	}
+	return out
+}
+
+func copyDef(v expreduceapi.Def) expreduceapi.Def {
+	newDef := expreduceapi.Def{}
+	for _, dv := range v.Downvalues {
+		newDv := expreduceapi.DownValue{
+			Rule:        dv.Rule.DeepCopy().(expreduceapi.ExpressionInterface),
+			Specificity: dv.Specificity,
+		}
+		newDef.Downvalues = append(newDef.Downvalues, newDv)
+	}
+	return newDef
+}
+
+// Localize is for forked maps only. The variables of a map that is not forked
+// belong to nobody else anyway.
+func (dm threadSafeDefinitionMap) Localize(key string) {}
+
+func (dm threadSafeDefinitionMap) Unlocalize(key string) {}
+
+// forkedDefinitionMap shares the definitions of another map, apart from the
+// names that have been localized. Those are private to the fork.
+type forkedDefinitionMap struct {
+	expreduceapi.DefinitionMap
+
+	mu    sync.RWMutex
+	local map[string]*localDef
+}
+
+type localDef struct {
+	def   expreduceapi.Def
+	isDef bool
+	depth int
+}
+
+func newForkedDefinitionMap(
+	base expreduceapi.DefinitionMap,
+) *forkedDefinitionMap {
+	return &forkedDefinitionMap{
+		DefinitionMap: base,
+		local:         make(map[string]*localDef),
+	}
+}
+
+// Localize makes the definition of a name private to this map, until it has
+// been unlocalized as often.
+func (dm *forkedDefinitionMap) Localize(key string) {
+	def, isDef := dm.Get(key)
+	dm.mu.Lock()
+	defer dm.mu.Unlock()
+	if dm.local[key] == nil {
+		dm.local[key] = &localDef{def: def, isDef: isDef}
+	}
+	dm.local[key].depth++
+}
+
+func (dm *forkedDefinitionMap) Unlocalize(key string) {
+	dm.mu.Lock()
+	defer dm.mu.Unlock()
+	if local, isLocal := dm.local[key]; isLocal {
+		local.depth--
+		if local.depth == 0 {
+			delete(dm.local, key)
+		}
+	}
+}
+
+func (dm *forkedDefinitionMap) Set(key string, value expreduceapi.Def) {
+	dm.mu.Lock()
+	if local, isLocal := dm.local[key]; isLocal {
+		local.def, local.isDef = value, true
+		dm.mu.Unlock()
+		return
+	}
+	dm.mu.Unlock()
+	dm.DefinitionMap.Set(key, value)
+}
+
+func (dm *forkedDefinitionMap) Get(key string) (expreduceapi.Def, bool) {
+	dm.mu.RLock()
+	if local, isLocal := dm.local[key]; isLocal {
+		defer dm.mu.RUnlock()
+		return local.def, local.isDef
+	}
+	dm.mu.RUnlock()
+	return dm.DefinitionMap.Get(key)
+}
+
+func (dm *forkedDefinitionMap) GetDef(key string) expreduceapi.Def {
+	value, ok := dm.Get(key)
+	if !ok {
+		panic("Reading missing value in GetDef()!")
+	}
+	return value
+}
+
+func (dm *forkedDefinitionMap) Keys() []string {
+	keys := dm.DefinitionMap.Keys()
+	dm.mu.RLock()
+	defer dm.mu.RUnlock()
+	for key, local := range dm.local {
+		if _, inBase := dm.DefinitionMap.Get(key); local.isDef && !inBase {
+			keys = append(keys, key)
+		}
+	}
+	return keys
+}
+
+func (dm *forkedDefinitionMap) CopyDefs() expreduceapi.DefinitionMap {
+	out := dm.DefinitionMap.CopyDefs()
+	dm.mu.RLock()
+	defer dm.mu.RUnlock()
+	for key, local := range dm.local {
+		if local.isDef {
+			out.Set(key, copyDef(local.def))
 		}
-		out.Set(k, newDef)
 	}
 	return out
 }
diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index a267949..4e18009 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -30,10 +30,11 @@ type EvalState struct {
 	trace                   expreduceapi.ExpressionInterface
 	NoInit                  bool
 	timeCounter             timecounter.Group
+	sharedTimeCounter       *timecounter.Group
 	freeze                  bool
 	thrown                  expreduceapi.ExpressionInterface
 	reapSown                expreduceapi.ExpressionInterface
-	interrupted             atomic.Bool
+	interrupted             *atomic.Bool
 	toStringFns             map[string]expreduceapi.ToStringFnType
 	profilingToStringParams expreduceapi.ToStringParams
 	streamManager           expreduceapi.StreamManager
@@ -110,6 +111,10 @@ func (es *EvalState) Init(loadAllDefs bool) {
 		}),
 	)
 	es.timeCounter.Init()
+	es.sharedTimeCounter = &es.timeCounter
+	if es.interrupted == nil {
+		es.interrupted = &atomic.Bool{}
+	}
 
 	es.NoInit = !loadAllDefs
 	if !es.NoInit {
@@ -301,6 +306,48 @@ func NewEvalState() *EvalState {
 	return &es
 }
 
+// Fork returns a state with which a part of the current evaluation can run
+// concurrently with other parts. It shares the definitions of the session, but
+// has control flow of its own, and the variables of its iterations are its own.
+func (es *EvalState) Fork() expreduceapi.EvalStateInterface {
+	worker := &EvalState{
+		CASLogger:               es.CASLogger,
+		defined:                 newForkedDefinitionMap(es.defined),
+		defineMu:                es.defineMu,
+		NoInit:                  es.NoInit,
+		sharedTimeCounter:       es.sharedTimeCounter,
+		freeze:                  es.freeze,
+		interrupted:             es.interrupted,
+		toStringFns:             es.toStringFns,
+		profilingToStringParams: es.profilingToStringParams,
+		streamManager:           es.streamManager,
+		random:                  es.random,
+	}
+	if es.trace != nil {
+		worker.trace = atoms.NewHead("System`List")
+	}
+	if es.reapSown != nil {
+		worker.reapSown = atoms.NewHead("System`List")
+	}
+	return worker
+}
+
+// Join takes over what a fork of this state recorded. Forks should be joined in
+// the order in which their parts would have been evaluated.
+func (es *EvalState) Join(fork expreduceapi.EvalStateInterface) {
+	if es.HasThrown() {
+		// Evaluation would have ended before.
+		return
+	}
+	if trace := fork.GetTrace(); es.trace != nil && trace != nil {
+		es.trace.AppendExArray(trace.GetParts()[1:])
+	}
+	if sown := fork.GetReapSown(); es.reapSown != nil && sown != nil {
+		es.reapSown.AppendExArray(sown.GetParts()[1:])
+	}
+	es.Throw(fork.Thrown())
+}
+
 func (es *EvalState) IsDef(name string) bool {
 	_, isd := es.defined.Get(name)
 	return isd
@@ -345,12 +392,12 @@ func (es *EvalState) GetDef(
 
 		if es.IsProfiling() {
 			elapsed := float64(time.Now().UnixNano()-started) / 1000000000
-			es.timeCounter.AddTime(
+			es.sharedTimeCounter.AddTime(
 				timecounter.CounterGroupDefTime,
 				defStr,
 				elapsed,
 			)
-			es.timeCounter.AddTime(
+			es.sharedTimeCounter.AddTime(
 				timecounter.CounterGroupLHSDefTime,
 				lhsDefStr,
 				elapsed,
@@ -712,7 +759,7 @@ func (es *EvalState) SetReapSown(ex expreduceapi.ExpressionInterface) {
 }
 
 func (es *EvalState) GetTimeCounter() *timecounter.Group {
-	return &es.timeCounter
+	return es.sharedTimeCounter
 }
 
 func (es *EvalState) ProcessTopLevelResult(
diff --git a/expreduce/iterspec/iterspec.go b/expreduce/iterspec/iterspec.go
index ae4ec7a..af8ab49 100644
--- a/expreduce/iterspec/iterspec.go
+++ b/expreduce/iterspec/iterspec.go
@@ -171,7 +171,7 @@ func (isl *iterSpecList) getIName() string {
 
 type MultiIterSpec struct {
 	iSpecs     []IterSpec
-	origDefs   []expreduceapi.Ex
+	origDefs   []expreduceapi.Def
 	isOrigDefs []bool
 	shouldCont bool
 }
@@ -208,14 +208,14 @@ func (mis *MultiIterSpec) Cont() bool {
 	return mis.shouldCont
 }
 
+// TakeVarSnapshot remembers all definitions of the variables of iteration.
 func (mis *MultiIterSpec) TakeVarSnapshot(es expreduceapi.EvalStateInterface) {
-	mis.origDefs = make([]expreduceapi.Ex, len(mis.iSpecs))
+	mis.origDefs = make([]expreduceapi.Def, len(mis.iSpecs))
 	mis.isOrigDefs = make([]bool, len(mis.iSpecs))
 	for i := range mis.iSpecs {
-		mis.origDefs[i], mis.isOrigDefs[i], _ = es.GetDef(
-			mis.iSpecs[i].getIName(),
-			mis.iSpecs[i].getI(),
-		)
+		name := mis.iSpecs[i].getIName()
+		es.GetDefinedMap().Localize(name)
+		mis.origDefs[i], mis.isOrigDefs[i] = es.GetDefined(name)
 	}
 }
 
@@ -223,12 +223,16 @@ func (mis *MultiIterSpec) RestoreVarSnapshot(
 	es expreduceapi.EvalStateInterface,
 ) {
 	for i := range mis.iSpecs {
+		name := mis.iSpecs[i].getIName()
 		if mis.isOrigDefs[i] {
-			es.Define(mis.iSpecs[i].getI(), mis.origDefs[i])
+			es.SetDefined(name, mis.origDefs[i])
 		} else {
-			es.Clear(mis.iSpecs[i].getIName())
+			es.Clear(name)
 		}
 	}
+	for i := range mis.iSpecs {
+		es.GetDefinedMap().Unlocalize(mis.iSpecs[i].getIName())
+	}
 }
 
 func (mis *MultiIterSpec) DefineCurrent(es expreduceapi.EvalStateInterface) {
diff --git a/pkg/expreduceapi/cas.go b/pkg/expreduceapi/cas.go
index 139c038..c9e8004 100644
--- a/pkg/expreduceapi/cas.go
+++ b/pkg/expreduceapi/cas.go
@@ -46,6 +46,8 @@ type EvalStateInterface interface {
 	LoggingInterface
 
 	Eval(expr Ex) Ex
+	Fork() EvalStateInterface
+	Join(fork EvalStateInterface)
 
 	GetDefined(name string) (Def, bool)
 	SetDefined(name string, def Def)
@@ -112,6 +114,8 @@ type DefinitionMap interface {
 	UnlockKey(key string)
 	Keys() []string
 	CopyDefs() DefinitionMap
+	Localize(key string)
+	Unlocalize(key string)
 }
 
 // Random is a session's source of random numbers.
-- 
2.43.0


From 3d17a0f88bcd26aea452c30c2fe87de311579e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 14/39] fix: names made by Module and Unique are always new

---
 expreduce/builtin_system.go | 8 +++++---
 pkg/expreduceapi/cas.go     | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index bda11ac..386542d 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -213,7 +213,7 @@ func snagUnique(
 	// Find the next ModuleNumber to use.
 	for {
 		toTry := fmt.Sprintf("%v%v%v", context, prefix, mn)
-		if !es.IsDef(toTry) {
+		if es.ClaimName(toTry) {
 			es.Define(
 				atoms.NewSymbol("System`$ModuleNumber"),
 				atoms.NewInteger(big.NewInt(mn+1)),
@@ -278,7 +278,8 @@ func applyModuleFn(
 	for i := range parsedLocals {
 		unique, ok := snagUnique(parsedLocals[i].sym.Name, "$", es)
 		if !ok {
-			log.Fatal("Error snagging unique.")
+			fmt.Println("Module: $ModuleNumber must be an integer.")
+			return nil, false
 		}
 		parsedLocals[i].uniqueName = unique
 	}
@@ -1054,7 +1055,8 @@ func getSystemDefinitions() (defs []Definition) {
 			}
 			unique, ok := snagUnique("Global`", prefix, es)
 			if !ok {
-				log.Fatal("Error snagging unique.")
+				fmt.Println("Unique: $ModuleNumber must be an integer.")
+				return this
 			}
 			return atoms.NewSymbol(unique)
 		},
diff --git a/pkg/expreduceapi/cas.go b/pkg/expreduceapi/cas.go
index c9e8004..29fa019 100644
--- a/pkg/expreduceapi/cas.go
+++ b/pkg/expreduceapi/cas.go
@@ -57,6 +57,7 @@ type EvalStateInterface interface {
 	GetDef(name string, lhs Ex) (Ex, bool, ExpressionInterface)
 	GetSymDef(name string) (Ex, bool)
 	MarkSeen(name string)
+	ClaimName(name string) bool
 	Define(lhs Ex, rhs Ex)
 	ClearAll()
 	Clear(name string)
-- 
2.43.0


From 0d19dd95b5ed33546e97232754347cb5caea473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 15/39] fix: Names with an invalid pattern no longer panics

---
 expreduce/builtin_system.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 386542d..c9d0f58 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -1161,7 +1161,11 @@ func getSystemDefinitions() (defs []Definition) {
 				fmt.Println("Unsupported call to Names.")
 				return this
 			}
-			var namesRegex = regexp.MustCompile(regex)
+			namesRegex, err := regexp.Compile(regex)
+			if err != nil {
+				fmt.Println("Names: invalid pattern.")
+				return this
+			}
 			names := []string{}
 			for _, name := range es.GetDefinedMap().Keys() {
 				if namesRegex.MatchString(name) {
-- 
2.43.0


From f8d14c239d9b3c17a9aebf47433cf0d72c757373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 16/39] fix: evaluation does not change stored definitions and
 values

---
 expreduce/eval.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 5d65ea3..0376c83 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -108,6 +108,11 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 			started = time.Now().UnixNano()
 		}
 
+		// The expression may be a part of a definition or of another value. It
+		// must not change.
+		curr = atoms.ShallowCopy(curr)
+		currEx = curr
+
 		// Start by evaluating each argument
 		headSym, headIsSym := &atoms.Symbol{}, false
 		attrs := expreduceapi.Attributes{}
-- 
2.43.0


From ab510ec8fd9da400b5f8f18ffdf3090d73516923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:44 +0000
Subject: [PATCH 17/39] fix: an input is recorded in the history even if an
 interrupt or Throw comes late

---
 expreduce/evalstate.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 4e18009..07a5a2a 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -2,6 +2,7 @@ package expreduce
 
 import (
 	"fmt"
+	"math/big"
 	"os"
 	"os/signal"
 	"strings"
@@ -781,16 +782,27 @@ func (es *EvalState) ProcessTopLevelResult(
 		es.Throw(nil)
 	}
 	es.EndInterrupt()
-	thisLine, _ := es.GetSymDef("System`$Line")
-	es.Eval(
-		atoms.E(atoms.S("SetDelayed"), atoms.E(atoms.S("In"), thisLine), in),
-	)
-	es.Eval(atoms.E(atoms.S("Set"), atoms.E(atoms.S("Out"), thisLine), theRes))
+	thisLine, hasLine := es.GetSymDef("System`$Line")
+	if hasLine {
+		// Recording the history is not an evaluation that could be cut short.
+		es.Define(atoms.E(atoms.S("In"), thisLine), in)
+		es.Define(atoms.E(atoms.S("Out"), thisLine), theRes)
+	}
 	prePrintFn, hasPrePrint := es.GetSymDef("System`$PrePrint")
 	if hasPrePrint {
 		theRes = es.Eval(atoms.E(prePrintFn, theRes))
+		// The next input starts afresh whatever happened here.
+		es.Throw(nil)
+		es.EndInterrupt()
+	}
+	if lineInt, isInt := thisLine.(*atoms.Integer); isInt {
+		es.Define(
+			atoms.NewSymbol("System`$Line"),
+			atoms.NewInteger(new(big.Int).Add(lineInt.Val, big.NewInt(1))),
+		)
+	} else if hasLine {
+		es.Eval(atoms.E(atoms.S("Increment"), atoms.S("$Line")))
 	}
-	es.Eval(atoms.E(atoms.S("Increment"), atoms.S("$Line")))
 	return theRes
 }
 
-- 
2.43.0


From c1688de79d1aa2bab1ec20d7205dcbd150b855f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 18/39] fix: a session's log level does not change those of
 other sessions

---
 expreduce/logging/caslogger.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expreduce/logging/caslogger.go b/expreduce/logging/caslogger.go
index ff73ee8..d826510 100644
--- a/expreduce/logging/caslogger.go
+++ b/expreduce/logging/caslogger.go
@@ -79,6 +79,8 @@ func (cl *CASLogger) SetUpLogging() {
 	backend := gologging.NewLogBackend(os.Stderr, "", 0)
 	formatter := gologging.NewBackendFormatter(backend, format)
 	cl.leveled = gologging.AddModuleLevel(formatter)
-	gologging.SetBackend(cl.leveled)
+	// Not the backend of the whole package: that would change the log levels of
+	// the other sessions.
+	cl._log.SetBackend(cl.leveled)
 	goLoggingMutex.Unlock()
 }
-- 
2.43.0


From edaee5b9ed89ef74ff58e9a05ab7072b61f21f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 19/39] fix: profiled durations do not depend on changes of the
 wall clock

---
 expreduce/eval.go      | 6 +++---
 expreduce/evalstate.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 0376c83..1130b47 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -99,13 +99,13 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 
 		currStr := ""
 		currHeadStr := ""
-		started := int64(0)
+		started := time.Time{}
 		if es.IsProfiling() {
 			currStr = curr.StringForm(es.profilingToStringParams)
 			currHeadStr = curr.GetParts()[0].StringForm(
 				es.profilingToStringParams,
 			)
-			started = time.Now().UnixNano()
+			started = time.Now()
 		}
 
 		// The expression may be a part of a definition or of another value. It
@@ -266,7 +266,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 
 		// Handle end of profiling
 		if es.IsProfiling() {
-			elapsed := float64(time.Now().UnixNano()-started) / 1000000000
+			elapsed := time.Since(started).Seconds()
 			es.GetTimeCounter().
 				AddTime(timecounter.CounterGroupEvalTime, currStr, elapsed)
 			es.GetTimeCounter().
diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 07a5a2a..b6d120f 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -382,17 +382,17 @@ func (es *EvalState) GetDef(
 		def := defined.Downvalues[i].Rule
 
 		defStr, lhsDefStr := "", ""
-		started := int64(0)
+		started := time.Time{}
 		if es.IsProfiling() {
 			defStr = def.StringForm(es.profilingToStringParams)
 			lhsDefStr = lhs.StringForm(es.profilingToStringParams) + defStr
-			started = time.Now().UnixNano()
+			started = time.Now()
 		}
 
 		res, replaced := replace(lhs, def, es)
 
 		if es.IsProfiling() {
-			elapsed := float64(time.Now().UnixNano()-started) / 1000000000
+			elapsed := time.Since(started).Seconds()
 			es.sharedTimeCounter.AddTime(
 				timecounter.CounterGroupDefTime,
 				defStr,
-- 
2.43.0


From 50c65b02e41ac0faf8d9120c821ce6afdfe66dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 20/39] fix: Pause can be interrupted and does not overflow

---
 expreduce/builtin_time.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/expreduce/builtin_time.go b/expreduce/builtin_time.go
index 5c81a69..372db5c 100644
--- a/expreduce/builtin_time.go
+++ b/expreduce/builtin_time.go
@@ -1,6 +1,7 @@
 package expreduce
 
 import (
+	"math"
 	"math/big"
 	"time"
 
@@ -8,6 +9,9 @@ import (
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
+// The longest time for which Pause does not notice an interrupt.
+const pauseStep = 50 * time.Millisecond
+
 func getTimeDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name: "UnixTime",
@@ -30,15 +34,31 @@ func getTimeDefinitions() (defs []Definition) {
 			if !nIsInt && !nIsFlt {
 				return this
 			}
-			var duration time.Duration
+			seconds := 0.0
 			if nIsInt {
-				duration = time.Duration(nInt.Val.Int64() * 1000000000)
+				seconds, _ = new(big.Float).SetInt(nInt.Val).Float64()
 			}
 			if nIsFlt {
-				asFlt, _ := nFlt.Val.Float64()
-				duration = time.Duration(asFlt * 1000000000)
+				seconds, _ = nFlt.Val.Float64()
+			}
+			duration := time.Duration(math.MaxInt64)
+			if seconds < duration.Seconds() {
+				duration = time.Duration(
+					math.Max(seconds, 0) * float64(time.Second),
+				)
+			}
+			// Sleep in short steps to notice an interrupt.
+			start := time.Now()
+			for !es.IsInterrupted() {
+				remaining := duration - time.Since(start)
+				if remaining <= 0 {
+					break
+				}
+				if remaining > pauseStep {
+					remaining = pauseStep
+				}
+				time.Sleep(remaining)
 			}
-			time.Sleep(duration)
 			return atoms.NewSymbol("System`Null")
 		},
 	})
-- 
2.43.0


From 1465f09584567eb9ce093474097180c998b47ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 21/39] fix: a snapshot of the definitions has their attributes
 and defaults

---
 expreduce/definition_map.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expreduce/definition_map.go b/expreduce/definition_map.go
index d70ba34..58b1396 100644
--- a/expreduce/definition_map.go
+++ b/expreduce/definition_map.go
@@ -61,7 +61,8 @@ func (dm threadSafeDefinitionMap) CopyDefs() expreduceapi.DefinitionMap {
 }
 
 func copyDef(v expreduceapi.Def) expreduceapi.Def {
-	newDef := expreduceapi.Def{}
+	newDef := v
+	newDef.Downvalues = nil
 	for _, dv := range v.Downvalues {
 		newDv := expreduceapi.DownValue{
 			Rule:        dv.Rule.DeepCopy().(expreduceapi.ExpressionInterface),
-- 
2.43.0


From fb91e29b47e5c62c76470029db04133b99242b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 22/39] fix: Get of a saved builtin keeps its function

---
 expreduce/builtin_system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index c9d0f58..5758df2 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -864,6 +864,9 @@ func getSystemDefinitions() (defs []Definition) {
 				compressedReader.Close()
 
 				for _, def := range definitions {
+					// The file does not have the builtin functions.
+					current, _ := es.GetDefined(def.Name)
+					def.Def.LegacyEvalFn = current.LegacyEvalFn
 					es.SetDefined(def.Name, def.Def)
 				}
 
-- 
2.43.0


From 961a5b29c20a19772296388ebf18691cda4040a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 23/39] fix: an uncaught exception or interrupt ends the file
 being read

---
 expreduce/easyrun.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/expreduce/easyrun.go b/expreduce/easyrun.go
index 8489020..67b7adf 100644
--- a/expreduce/easyrun.go
+++ b/expreduce/easyrun.go
@@ -54,6 +54,10 @@ func EvalInterpMany(
 	expr, err := parser.InterpBuf(buf, fn, es)
 	for err == nil {
 		lastExpr = es.Eval(expr)
+		// An exception or an interrupt ends the whole file.
+		if es.HasThrown() || es.IsInterrupted() {
+			return lastExpr
+		}
 		expr, err = parser.InterpBuf(buf, fn, es)
 	}
 	if !strings.HasSuffix(err.Error(), "unexpected EOF, invalid empty input") {
@@ -75,7 +79,12 @@ func ReadList(
 	l := atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`List")})
 	expr, err := parser.InterpBuf(buf, fn, es)
 	for err == nil {
-		l.AppendEx(es.Eval(expr))
+		res := es.Eval(expr)
+		// An exception or an interrupt ends the whole file.
+		if es.HasThrown() || es.IsInterrupted() {
+			return res
+		}
+		l.AppendEx(res)
 		expr, err = parser.InterpBuf(buf, fn, es)
 	}
 	if !strings.HasSuffix(err.Error(), "unexpected EOF, invalid empty input") {
-- 
2.43.0


From 7d362eaef77b1a7f188eed4cb7c4eceb71d8b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 24/39] fix: unsupported syntax is reported instead of ending
 the process

---
 expreduce/parser/interp.go | 46 +++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index 6bda57e..9fba233 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"go/token"
-	"log"
 	"math/big"
 	"strings"
 
@@ -199,14 +198,14 @@ func parserTokenConv(tk wl.Token) expreduceapi.Ex {
 		tmpi := big.NewInt(0)
 		_, ok := tmpi.SetString(tk.Val, base)
 		if !ok {
-			log.Fatal("Failed in integer parsing.")
+			panic(unsupportedSyntax("invalid integer " + tk.Val))
 		}
 		return atoms.NewInteger(tmpi)
 	case wl.FLOAT:
 		tmpf := big.NewFloat(0)
 		_, ok := tmpf.SetString(tk.Val)
 		if !ok {
-			log.Fatal("Failed in float parsing.")
+			panic(unsupportedSyntax("invalid number " + tk.Val))
 		}
 		return atoms.NewReal(tmpf)
 	case wl.STRING:
@@ -218,7 +217,7 @@ func parserTokenConv(tk wl.Token) expreduceapi.Ex {
 		if tk.Val != "#" {
 			_, ok := tmpi.SetString(tk.Val[1:], 10)
 			if !ok {
-				log.Fatal("Failed in integer parsing.")
+				panic(unsupportedSyntax("invalid integer " + tk.Val))
 			}
 		}
 		return atoms.NewExpression([]expreduceapi.Ex{
@@ -226,11 +225,8 @@ func parserTokenConv(tk wl.Token) expreduceapi.Ex {
 			atoms.NewInteger(tmpi),
 		})
 
-	default:
-		log.Fatalf("System`UnParsedToken")
 	}
-	log.Fatalf("System`UnParsedToken")
-	return nil
+	panic(unsupportedSyntax("unsupported token " + tk.Val))
 }
 
 func parserTagConv(tag *wl.Tag) expreduceapi.Ex {
@@ -514,8 +510,7 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 			)
 		}
 	}
-	log.Fatalf("System`UnParsed: %+v %+v %+v", expr.Token, expr.Case, expr)
-	return nil
+	panic(unsupportedSyntax("unsupported syntax"))
 }
 
 func ReplaceSyms(in string) string {
@@ -552,13 +547,23 @@ func (g *eofGuard) ReadRune() (rune, int, error) {
 	return r, size, err
 }
 
-func parseExpression(buf *bytes.Buffer, fn string) (expr *wl.Expression, err error) {
+// unsupportedSyntax is an error of converting what was parsed.
+type unsupportedSyntax string
+
+func (e unsupportedSyntax) Error() string { return string(e) }
+
+func parseExpression(buf *bytes.Buffer, fn string) (ex expreduceapi.Ex, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			if r != errUnterminated {
-				panic(r)
+			switch e := r.(type) {
+			case unsupportedSyntax:
+				ex, err = nil, e
+			default:
+				if r != errUnterminated {
+					panic(r)
+				}
+				ex, err = nil, errUnterminated
 			}
-			expr, err = nil, errUnterminated
 		}
 	}()
 	// TODO(corywalker): use the interactive mode for proper newline handling.
@@ -566,7 +571,11 @@ func parseExpression(buf *bytes.Buffer, fn string) (expr *wl.Expression, err err
 	if err != nil {
 		panic(err)
 	}
-	return in.ParseExpression(token.NewFileSet().AddFile(fn, -1, 1e6))
+	expr, err := in.ParseExpression(token.NewFileSet().AddFile(fn, -1, 1e6))
+	if err != nil {
+		return nil, err
+	}
+	return parserExprConv(expr), nil
 }
 
 func InterpBuf(
@@ -574,11 +583,10 @@ func InterpBuf(
 	fn string,
 	esfp evalStateForParser,
 ) (expreduceapi.Ex, error) {
-	expr, err := parseExpression(buf, fn)
+	parsed, err := parseExpression(buf, fn)
 	if err != nil {
 		return atoms.NewSymbol("System`Null"), err
 	}
-	parsed := parserExprConv(expr)
 	//fmt.Println(parsed)
 
 	// Remove outer parens
@@ -597,7 +605,9 @@ func InterpBuf(
 	contextPathEx := esfp.GetListDef("System`$ContextPath")
 	contextPath := []string{}
 	for _, pathPart := range contextPathEx.GetParts()[1:] {
-		contextPath = append(contextPath, pathPart.(*atoms.String).Val)
+		if pathStr, isStr := pathPart.(*atoms.String); isStr {
+			contextPath = append(contextPath, pathStr.Val)
+		}
 	}
 	addContextAndDefine(parsed, context, contextPath, esfp)
 	return parsed, nil
-- 
2.43.0


From e779eac960828a2b5dba7a0b52220ba8fb6d8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 25/39] fix: a reset session forgets pending exceptions,
 interrupts and collected values

---
 expreduce/evalstate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index b6d120f..e682c44 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -116,6 +116,12 @@ func (es *EvalState) Init(loadAllDefs bool) {
 	if es.interrupted == nil {
 		es.interrupted = &atomic.Bool{}
 	}
+	// Nothing of what went on before the initialization matters after it.
+	es.trace = nil
+	es.reapSown = nil
+	es.thrown = nil
+	es.freeze = false
+	es.EndInterrupt()
 
 	es.NoInit = !loadAllDefs
 	if !es.NoInit {
-- 
2.43.0


From 212124cd42a3e284d0383ff5d29e02403838af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 26/39] fix: -rawterm reads every line, whatever arrives
 together

---
 expreduce.go | 49 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/expreduce.go b/expreduce.go
index cb2994f..f9ded47 100644
--- a/expreduce.go
+++ b/expreduce.go
@@ -5,11 +5,13 @@ import (
 	"bytes"
 	"flag"
 	"fmt"
+	"io"
 	"log"
 	"net/http"
 	_ "net/http/pprof"
 	"os"
 	"runtime/pprof"
+	"strings"
 
 	"github.com/corywalker/expreduce/expreduce"
 	"github.com/corywalker/expreduce/expreduce/atoms"
@@ -115,27 +117,25 @@ func scriptSession(es *expreduce.EvalState, srcText string, srcPath string) {
 }
 
 func interactiveSession(es *expreduce.EvalState) {
-	rl, err := readline.NewEx(&readline.Config{
-		HistoryFile:         "/tmp/readline.tmp",
-		ForceUseInteractive: true,
-	})
-	if err != nil {
-		panic(err)
+	readLine := rawLineReader()
+	if !*rawterm {
+		rl, err := readline.NewEx(&readline.Config{
+			HistoryFile:         "/tmp/readline.tmp",
+			ForceUseInteractive: true,
+		})
+		if err != nil {
+			panic(err)
+		}
+		defer rl.Close()
+		readLine = func(prompt string) (string, error) {
+			rl.SetPrompt(prompt)
+			return rl.Readline()
+		}
 	}
-	defer rl.Close()
 
 	promptNum := 1
 	for {
-		line := ""
-		var err error
-		if *rawterm {
-			reader := bufio.NewReader(os.Stdin)
-			fmt.Printf("In[%d]:= ", promptNum)
-			line, err = reader.ReadString('\n')
-		} else {
-			rl.SetPrompt(fmt.Sprintf("In[%d]:= ", promptNum))
-			line, err = rl.Readline()
-		}
+		line, err := readLine(fmt.Sprintf("In[%d]:= ", promptNum))
 		if err != nil { // io.EOF, readline.ErrInterrupt
 			break
 		}
@@ -153,6 +153,21 @@ func interactiveSession(es *expreduce.EvalState) {
 	}
 }
 
+// rawLineReader reads lines from standard input.
+func rawLineReader() func(prompt string) (string, error) {
+	// One reader for all the lines: it may hold more than the first of them.
+	reader := bufio.NewReader(os.Stdin)
+	return func(prompt string) (string, error) {
+		fmt.Print(prompt)
+		line, err := reader.ReadString('\n')
+		if err == io.EOF && line != "" {
+			// The last line does not need to end with a newline.
+			err = nil
+		}
+		return strings.TrimRight(line, "\r\n"), err
+	}
+}
+
 func printFormattedOutput(
 	es *expreduce.EvalState,
 	res expreduceapi.Ex,
-- 
2.43.0


From 248253320479c92b3f2151165f8b546fcc7065c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 27/39] fix: an exception in -initfile does not end the first
 input

---
 expreduce.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/expreduce.go b/expreduce.go
index f9ded47..7b8275c 100644
--- a/expreduce.go
+++ b/expreduce.go
@@ -90,6 +90,16 @@ func main() {
 		}
 		scriptText := buf.String()
 		expreduce.EvalInterpMany(scriptText, *initfile, es)
+		if es.HasThrown() {
+			fmt.Printf(
+				"Throw::nocatch: %v returned to top level but uncaught.\n\n",
+				es.Thrown(),
+			)
+		}
+		// Neither an exception nobody caught nor an interrupt is for the first
+		// input.
+		es.Throw(nil)
+		es.EndInterrupt()
 	}
 
 	if *scriptfile != "" {
-- 
2.43.0


From cd53d1bcdae737d09feac64cc3b9778dee9d5598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 28/39] fix: building the terms of NestList, NestWhileList and
 Array can be interrupted

---
 expreduce/builtin_functional.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/expreduce/builtin_functional.go b/expreduce/builtin_functional.go
index 975d537..8489bed 100644
--- a/expreduce/builtin_functional.go
+++ b/expreduce/builtin_functional.go
@@ -626,6 +626,9 @@ func getFunctionalDefinitions() (defs []Definition) {
 			)
 
 			for i := int64(1); i <= n; i++ {
+				if es.IsInterrupted() {
+					return atoms.NewSymbol("System`$Aborted")
+				}
 				expr = atoms.NewExpression([]expreduceapi.Ex{
 					f,
 					expr,
@@ -740,6 +743,9 @@ func getFunctionalDefinitions() (defs []Definition) {
 
 			if n > 0 {
 				for i := int64(0); i < n; i++ {
+					if es.IsInterrupted() {
+						return atoms.NewSymbol("System`$Aborted")
+					}
 					expr = atoms.NewExpression([]expreduceapi.Ex{
 						f,
 						expr,
@@ -786,6 +792,9 @@ func getFunctionalDefinitions() (defs []Definition) {
 					[]expreduceapi.Ex{atoms.NewSymbol("System`List")},
 				)
 				for i := int64(1); i <= n; i++ {
+					if es.IsInterrupted() {
+						return atoms.NewSymbol("System`$Aborted")
+					}
 					toReturn.AppendEx(atoms.NewExpression([]expreduceapi.Ex{
 						this.GetParts()[1],
 						atoms.NewInteger(big.NewInt(i)),
-- 
2.43.0


From d3ddd314c2e4373f7dcb27d44a5241f1a279a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 29/39] fix: an interrupt between two inputs does not abort the
 later one

---
 expreduce.go         | 2 ++
 expreduce/easyrun.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/expreduce.go b/expreduce.go
index 7b8275c..546f4e7 100644
--- a/expreduce.go
+++ b/expreduce.go
@@ -154,6 +154,8 @@ func interactiveSession(es *expreduce.EvalState) {
 		}
 		fmt.Printf("\n")
 
+		// An interrupt at the prompt is not for this line.
+		es.EndInterrupt()
 		exp := parser.Interp(line, es)
 		res := es.Eval(exp)
 		res = es.ProcessTopLevelResult(exp, res)
diff --git a/expreduce/easyrun.go b/expreduce/easyrun.go
index 67b7adf..9e764fb 100644
--- a/expreduce/easyrun.go
+++ b/expreduce/easyrun.go
@@ -20,6 +20,8 @@ func EvalInterp(
 // EasyRun evaluates a string of Expreduce code and returns the result as a
 // string.
 func EasyRun(in string, es expreduceapi.EvalStateInterface) string {
+	// An interrupt that came earlier is not for this input.
+	es.EndInterrupt()
 	context, contextPath := actualStringFormArgs(es)
 	stringParams := expreduceapi.ToStringParams{
 		Form:        "InputForm",
-- 
2.43.0


From d2bf45d345d34362a401eba0767aa2ec6a925977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 30/39] fix: reducing a fraction does not change the integers
 it was made of

---
 expreduce/eval.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 1130b47..10543d5 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -315,13 +315,12 @@ func (es *EvalState) evalRational(this *atoms.Rational) expreduceapi.Ex {
 	}
 
 	if !negateRes {
-		this.Num.Set(absNum)
-		this.Den.Set(absDen)
+		// The integers may be shared with other expressions: replace them.
+		this.Num, this.Den = absNum, absDen
 		this.SetNeedsEval(false)
 		return this
 	}
-	this.Num.Set(absNum.Neg(absNum))
-	this.Den.Set(absDen)
+	this.Num, this.Den = absNum.Neg(absNum), absDen
 	this.SetNeedsEval(false)
 	return this
 }
-- 
2.43.0


From 6ec7e1551793b8272a0930e33766c608d2adaa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 31/39] fix: taking the factorial of a number does not change
 the number

---
 expreduce/builtin_combinatorics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/builtin_combinatorics.go b/expreduce/builtin_combinatorics.go
index 3e3747e..dd230d1 100644
--- a/expreduce/builtin_combinatorics.go
+++ b/expreduce/builtin_combinatorics.go
@@ -97,7 +97,7 @@ func factorial(n *big.Int) (result *big.Int) {
 		result.Set(n)
 		var one big.Int
 		one.SetInt64(1)
-		result.Mul(result, factorial(n.Sub(n, &one)))
+		result.Mul(result, factorial(new(big.Int).Sub(n, &one)))
 	}
 	return
 }
-- 
2.43.0


From b9c35d1940a86cba689d47d8559e809c8cb5331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 32/39] fix: a Throw in the initial value of a Module variable
 or a condition of Which ends the evaluation at once

---
 expreduce/builtin_flowcontrol.go | 6 ++++++
 expreduce/eval.go                | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index ebed831..5ec6889 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -145,6 +145,12 @@ func getFlowControlDefinitions() (defs []Definition) {
 			}
 			for i := 1; i < len(this.GetParts()); i += 2 {
 				condRes := es.Eval(this.GetParts()[i])
+				if es.HasThrown() {
+					return es.Thrown()
+				}
+				if es.IsInterrupted() {
+					return atoms.NewSymbol("System`$Aborted")
+				}
 				resSym, resIsSym := condRes.(*atoms.Symbol)
 				if !resIsSym {
 					continue
diff --git a/expreduce/eval.go b/expreduce/eval.go
index 10543d5..829b851 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -57,6 +57,9 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 	insideDefinition := false
 	for currExHash != lastExHash {
 		lastExHash = currExHash
+		if es.HasThrown() {
+			return es.Thrown()
+		}
 		if es.IsInterrupted() {
 			return atoms.NewSymbol("System`$Aborted")
 		}
@@ -273,6 +276,9 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 				AddTime(timecounter.CounterGroupHeadEvalTime, currHeadStr, elapsed)
 		}
 	}
+	if es.HasThrown() {
+		return es.Thrown()
+	}
 	if es.IsInterrupted() {
 		return atoms.NewSymbol("System`$Aborted")
 	}
-- 
2.43.0


From 48be25f59f94f434aba36691857b1bdfa7744c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 33/39] fix: a Throw or an interrupt inside Evaluate keeps the
 held function from running

---
 expreduce/eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 829b851..91c1739 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -203,6 +203,12 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 		}
 		if !attrs.HoldAllComplete {
 			curr = mergeSequences(curr, es, "System`Evaluate", true)
+			if es.HasThrown() {
+				return es.Thrown()
+			}
+			if es.IsInterrupted() {
+				return atoms.NewSymbol("System`$Aborted")
+			}
 		}
 		curr = mergeSequences(curr, es, "System`Unevaluated", false)
 		// In case curr changed
-- 
2.43.0


From ca50aeea7ebd50caf84439bff21aafe71eeffc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:27 +0000
Subject: [PATCH 34/39] fix: switching profiling on does not record the
 evaluation that switches it on

---
 expreduce/eval.go      | 4 ++--
 expreduce/evalstate.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 91c1739..8748db2 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -273,8 +273,8 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 		}
 		currExHash = hashEx(currEx)
 
-		// Handle end of profiling
-		if es.IsProfiling() {
+		// Handle end of profiling. Profiling may have been enabled meanwhile.
+		if es.IsProfiling() && !started.IsZero() {
 			elapsed := time.Since(started).Seconds()
 			es.GetTimeCounter().
 				AddTime(timecounter.CounterGroupEvalTime, currStr, elapsed)
diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index e682c44..bc4b29e 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -397,7 +397,7 @@ func (es *EvalState) GetDef(
 
 		res, replaced := replace(lhs, def, es)
 
-		if es.IsProfiling() {
+		if es.IsProfiling() && !started.IsZero() {
 			elapsed := time.Since(started).Seconds()
 			es.sharedTimeCounter.AddTime(
 				timecounter.CounterGroupDefTime,
-- 
2.43.0


From abe3f81bb26bcedd56ebeb234510ae1a7b7f5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 35/39] fix: iterations with negative steps and with mixed real
 and exact bounds visit every point

---
 expreduce/iterspec/iterspec.go | 43 +++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/expreduce/iterspec/iterspec.go b/expreduce/iterspec/iterspec.go
index af8ab49..bbb10f3 100644
--- a/expreduce/iterspec/iterspec.go
+++ b/expreduce/iterspec/iterspec.go
@@ -130,7 +130,48 @@ func (isr *iterSpecRange) Next() {
 }
 
 func (isr *iterSpecRange) Cont() bool {
-	return atoms.ExOrder(isr.curr, isr.iMax) >= 0
+	// ExOrder tells equal numbers of different types apart, so real numbers are
+	// compared by value.
+	cmp, areReal := compareReals(isr.curr, isr.iMax)
+	if !areReal {
+		return atoms.ExOrder(isr.curr, isr.iMax) >= 0
+	}
+	stepSign, stepIsReal := compareReals(isr.step, atoms.NewInt(0))
+	if stepIsReal && stepSign < 0 {
+		return cmp >= 0
+	}
+	return cmp <= 0
+}
+
+// compareReals returns the sign of a-b for real numbers.
+func compareReals(a expreduceapi.Ex, b expreduceapi.Ex) (int, bool) {
+	aRat, aIsExact := exactValue(a)
+	bRat, bIsExact := exactValue(b)
+	if aIsExact && bIsExact {
+		return aRat.Cmp(bRat), true
+	}
+	aFlt, aIsReal := a.(*atoms.Flt)
+	bFlt, bIsReal := b.(*atoms.Flt)
+	if aIsExact && bIsReal {
+		return new(big.Float).SetRat(aRat).Cmp(bFlt.Val), true
+	}
+	if aIsReal && bIsExact {
+		return aFlt.Val.Cmp(new(big.Float).SetRat(bRat)), true
+	}
+	if aIsReal && bIsReal {
+		return aFlt.Val.Cmp(bFlt.Val), true
+	}
+	return 0, false
+}
+
+func exactValue(e expreduceapi.Ex) (*big.Rat, bool) {
+	switch n := e.(type) {
+	case *atoms.Integer:
+		return new(big.Rat).SetInt(n.Val), true
+	case *atoms.Rational:
+		return new(big.Rat).SetFrac(n.Num, n.Den), true
+	}
+	return nil, false
 }
 
 func (isr *iterSpecRange) GetCurr() expreduceapi.Ex {
-- 
2.43.0


From 542927183ad81ca0f0b3e6427e614358ccecd39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:10 +0000
Subject: [PATCH 36/39] fix: ParallelTable elements see the iteration variables
 through definitions, and an interrupt ends the listing of elements

---
 expreduce/builtin_list.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/expreduce/builtin_list.go b/expreduce/builtin_list.go
index de2802d..fbaf1a7 100644
--- a/expreduce/builtin_list.go
+++ b/expreduce/builtin_list.go
@@ -305,7 +305,17 @@ func getListDefinitions() (defs []Definition) {
 					toReturn := atoms.NewExpression(
 						[]expreduceapi.Ex{atoms.NewSymbol("System`List")},
 					)
+					forks := []expreduceapi.EvalStateInterface{nil}
 					for mis.Cont() {
+						if es.IsInterrupted() {
+							return atoms.NewSymbol("System`$Aborted")
+						}
+						// Definitions used by the element see the
+						// variables of iteration, too.
+						fork := es.Fork()
+						mis.TakeVarSnapshot(fork)
+						mis.DefineCurrent(fork)
+						forks = append(forks, fork)
 						toReturn.AppendEx(
 							matcher.ReplacePD(
 								this.GetParts()[1].DeepCopy(),
@@ -316,12 +326,7 @@ func getListDefinitions() (defs []Definition) {
 						mis.Next()
 					}
 					var wg sync.WaitGroup
-					forks := make(
-						[]expreduceapi.EvalStateInterface,
-						len(toReturn.GetParts()),
-					)
 					for i := 1; i < len(toReturn.GetParts()); i++ {
-						forks[i] = es.Fork()
 						wg.Add(1)
 						go func(idx int) {
 							defer wg.Done()
-- 
2.43.0


From d02d0f0977e2a473f7a2e0ee01002f3622edc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:57 +0000
Subject: [PATCH 37/39] fix: ReadList reads the same characters as Get

---
 expreduce/easyrun.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expreduce/easyrun.go b/expreduce/easyrun.go
index 9e764fb..93344ac 100644
--- a/expreduce/easyrun.go
+++ b/expreduce/easyrun.go
@@ -77,6 +77,7 @@ func ReadList(
 	fn string,
 	es expreduceapi.EvalStateInterface,
 ) expreduceapi.Ex {
+	doc = parser.ReplaceSyms(doc)
 	buf := bytes.NewBufferString(doc)
 	l := atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`List")})
 	expr, err := parser.InterpBuf(buf, fn, es)
-- 
2.43.0


From 265e459d5c656ac94786d691d092e9e7572f0f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:57 +0000
Subject: [PATCH 38/39] fix: report characters the lexer hangs on or ends at as
 syntax errors

---
 expreduce/parser/interp.go | 87 +++++++++++++++++++++++++++++++++-----
 1 file changed, 77 insertions(+), 10 deletions(-)

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index 9fba233..22210bd 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"go/token"
 	"math/big"
+	"regexp"
 	"strings"
 
 	"github.com/corywalker/expreduce/expreduce/atoms"
@@ -529,22 +530,65 @@ var errUnterminated = errors.New(
 // of these for any input.
 const maxReadsPastEOF = 1000
 
-// eofGuard stops the lexer from asking for the end of an unterminated string
-// forever.
-type eofGuard struct {
+// sourceReader stops the lexer from asking for the end of an unterminated string
+// forever. It also refuses the escapes that the lexer has no character for: the
+// lexer would not find the end of a string or comment with one in it.
+type sourceReader struct {
 	buf          *bytes.Buffer
+	started      bool
+	nuls         int
 	readsPastEOF int
 }
 
-func (g *eofGuard) ReadRune() (rune, int, error) {
-	r, size, err := g.buf.ReadRune()
+func (sr *sourceReader) ReadRune() (rune, int, error) {
+	r, size, err := sr.buf.ReadRune()
 	if err != nil {
-		g.readsPastEOF++
-		if g.readsPastEOF > maxReadsPastEOF {
+		sr.readsPastEOF++
+		if sr.readsPastEOF > maxReadsPastEOF {
 			panic(errUnterminated)
 		}
+		return r, size, err
+	}
+	if r == '\\' {
+		checkEscape(sr.buf.Bytes())
+	}
+	if r == '\ufeff' && sr.started {
+		panic(unsupportedSyntax("unicode (UTF-8) BOM in middle of file"))
+	}
+	if r == 0 {
+		sr.nuls++
+	}
+	sr.started = true
+	return r, size, nil
+}
+
+var escape = regexp.MustCompile(
+	`^(\[[A-Z][A-Za-z]*\]|[0-9]{3}|\.[0-9A-Fa-f]{2}|:[0-9A-Fa-f]{4})`,
+)
+var incompleteEscape = regexp.MustCompile(
+	`^(\[([A-Z][A-Za-z]*)?|[0-9]{1,2}|\.[0-9A-Fa-f]?|:[0-9A-Fa-f]{0,3})$`,
+)
+
+// checkEscape panics with what is wrong with the escape behind a backslash.
+func checkEscape(rest []byte) {
+	if incompleteEscape.Match(rest) {
+		panic(unsupportedSyntax("unexpected EOF, incomplete escape"))
+	}
+	found := escape.Find(rest)
+	if found == nil {
+		return
+	}
+	// Outside of strings and comments the lexer reports the escapes it does not
+	// know.
+	in, err := wl.NewInput(strings.NewReader("\\"+string(found)), true)
+	if err != nil {
+		panic(err)
+	}
+	_, err = in.ParseExpression(token.NewFileSet().AddFile("escape", -1, 1e6))
+	if err != nil && (strings.Contains(err.Error(), "unknown character name") ||
+		strings.Contains(err.Error(), "strconv.ParseInt")) {
+		panic(unsupportedSyntax("unknown character \\" + string(found)))
 	}
-	return r, size, err
 }
 
 // unsupportedSyntax is an error of converting what was parsed.
@@ -552,6 +596,19 @@ type unsupportedSyntax string
 
 func (e unsupportedSyntax) Error() string { return string(e) }
 
+func nulsInStrings(e expreduceapi.Ex) int {
+	if str, isStr := e.(*atoms.String); isStr {
+		return strings.Count(str.Val, "\x00")
+	}
+	count := 0
+	if expr, isExpr := e.(expreduceapi.ExpressionInterface); isExpr {
+		for _, part := range expr.GetParts() {
+			count += nulsInStrings(part)
+		}
+	}
+	return count
+}
+
 func parseExpression(buf *bytes.Buffer, fn string) (ex expreduceapi.Ex, err error) {
 	defer func() {
 		if r := recover(); r != nil {
@@ -567,15 +624,25 @@ func parseExpression(buf *bytes.Buffer, fn string) (ex expreduceapi.Ex, err erro
 		}
 	}()
 	// TODO(corywalker): use the interactive mode for proper newline handling.
-	in, err := wl.NewInput(&eofGuard{buf: buf}, true)
+	src := &sourceReader{buf: buf}
+	in, err := wl.NewInput(src, true)
 	if err != nil {
 		panic(err)
 	}
 	expr, err := in.ParseExpression(token.NewFileSet().AddFile(fn, -1, 1e6))
+	errNUL := unsupportedSyntax("unexpected character U+0000")
 	if err != nil {
+		if src.nuls > 0 {
+			return nil, errNUL
+		}
 		return nil, err
 	}
-	return parserExprConv(expr), nil
+	converted := parserExprConv(expr)
+	// Outside of strings the lexer takes it for the end of the input.
+	if src.nuls > 0 && src.nuls > nulsInStrings(converted) {
+		return nil, errNUL
+	}
+	return converted, nil
 }
 
 func InterpBuf(
-- 
2.43.0


From ec60ab078702a0d5ab043c1fa3ed678312431831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:57 +0000
Subject: [PATCH 39/39] fix: Get marks the names in loaded definitions as used

---
 expreduce/builtin_system.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 5758df2..4caff26 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -195,6 +195,18 @@ func replaceFile(filename string, data []byte) error {
 	return nil
 }
 
+// markSymbolsSeen marks every symbol of e as seen, as parsing e would.
+func markSymbolsSeen(e expreduceapi.Ex, es expreduceapi.EvalStateInterface) {
+	switch e := e.(type) {
+	case *atoms.Symbol:
+		es.MarkSeen(e.Name)
+	case expreduceapi.ExpressionInterface:
+		for _, part := range e.GetParts() {
+			markSymbolsSeen(part, es)
+		}
+	}
+}
+
 func snagUnique(
 	context string,
 	prefix string,
@@ -863,6 +875,12 @@ func getSystemDefinitions() (defs []Definition) {
 				}
 				compressedReader.Close()
 
+				for _, def := range definitions {
+					for _, dv := range def.Def.Downvalues {
+						markSymbolsSeen(dv.Rule, es)
+					}
+					markSymbolsSeen(def.Def.DefaultExpr, es)
+				}
 				for _, def := range definitions {
 					// The file does not have the builtin functions.
 					current, _ := es.GetDefined(def.Name)
-- 
2.43.0

