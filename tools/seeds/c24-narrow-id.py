prop = 'C24'
pkg = 'internal/output'
edits = [('internal/output/threads.go', '\t\treturn traces[i].ThreadId < traces[j].ThreadId', '\t\treturn int32(traces[i].ThreadId) < int32(traces[j].ThreadId)')]
needs = 'a thread id above 2^31'
breaks = 'the threads are out of order'
demo = 'package output\n\nimport (\n\t"bytes"\n\t"strings"\n\t"testing"\n\n\t"github.com/danielleontiev/neojhat/internal/threads"\n)\n\nfunc TestDemo(t *testing.T) {\n\tvar b bytes.Buffer\n\tThreadsPlain(threads.ThreadDump{StackTraces: []threads.StackTrace{{ThreadName: "late", ThreadId: 3 << 30}, {ThreadName: "early", ThreadId: 5}}}, false, &b)\n\tif strings.Index(b.String(), "early") > strings.Index(b.String(), "late") {\n\t\tt.Fatal(b.String())\n\t}\n}\n'
