prop = 'C31'
pkg = 'internal/output'
edits = [('internal/output/threads.go', '\tLocation    string\n', '\tLocation    template.HTML\n'), ('internal/output/threads.go', '\t\t\t\tLocation:    loc,', '\t\t\t\tLocation:    template.HTML(loc),')]
needs = 'markup in a source file name'
breaks = 'the file name is not escaped in the HTML report'
demo = 'package output\n\nimport (\n\t"bytes"\n\t"strings"\n\t"testing"\n\n\t"github.com/danielleontiev/neojhat/internal/threads"\n)\n\nfunc TestDemo(t *testing.T) {\n\tvar b bytes.Buffer\n\tThreadsHtml(threads.ThreadDump{StackTraces: []threads.StackTrace{{Frames: []threads.StackFrame{{FileName: "<script>x", LineNumber: "1"}}}}}, false, &b)\n\tif strings.Contains(b.String(), "<script>x") {\n\t\tt.Fatal(b.String())\n\t}\n}\n'
