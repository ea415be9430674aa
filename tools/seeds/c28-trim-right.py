prop = 'C28'
pkg = 'internal/output'
edits = [('internal/output/summary.go', '\t\tv := strings.TrimSpace(kv.Val)', '\t\tv := strings.TrimRight(kv.Val, "\\r\\n \\t")')]
needs = 'a property value with leading white space'
breaks = 'values are no longer aligned'
demo = 'package output\n\nimport (\n\t"bytes"\n\t"strings"\n\t"testing"\n\n\t"github.com/danielleontiev/neojhat/internal/summary"\n)\n\nfunc TestDemo(t *testing.T) {\n\tvar b bytes.Buffer\n\tSummaryPlain(summary.Summary{Properties: []summary.Kv{{Key: "averyverylongkeyhere", Val: "\\n x"}}}, &b)\n\tif !strings.Contains(b.String(), "averyverylongkeyhere:          x\\n") {\n\t\tt.Fatal(b.String())\n\t}\n}\n'
