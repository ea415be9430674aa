prop = 'C19'
pkg = 'internal/output'
edits = [('internal/output/objects.go', '\t\t\tif o.Items[i].InstancesCount == o.Items[j].InstancesCount {\n\t\t\t\treturn o.Items[i].Name < o.Items[j].Name', '\t\t\tif o.Items[i].InstancesCount == o.Items[j].InstancesCount {\n\t\t\t\treturn o.Items[i].TotalSize > o.Items[j].TotalSize')]
needs = 'two classes with equal counts and different sizes'
breaks = 'rows with equal counts are no longer ordered by name'
demo = 'package output\n\nimport (\n\t"bytes"\n\t"strings"\n\t"testing"\n\n\t"github.com/danielleontiev/neojhat/internal/objects"\n)\n\nfunc TestDemo(t *testing.T) {\n\tvar b bytes.Buffer\n\tObjectsPlain(objects.Objects{Items: []objects.ObjectItem{{Name: "BBB", InstancesCount: 3, TotalSize: 50}, {Name: "AAA", InstancesCount: 3, TotalSize: 20}},\n\t\tTotalCount: 6, TotalSize: 70, SortBy: objects.Count}, &b)\n\tif strings.Index(b.String(), "AAA") > strings.Index(b.String(), "BBB") {\n\t\tt.Fatal(b.String())\n\t}\n}\n'
