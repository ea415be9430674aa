prop = 'C20'
pkg = 'internal/format'
edits = [('internal/format/format.go', '\tif bytes < g {', '\tif bytes <= g {')]
needs = 'exactly 2^30 bytes'
breaks = '1G is printed as 1024M'
demo = 'package format\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tif s := Size(1 << 30); s != "1G" {\n\t\tt.Fatal(s)\n\t}\n}\n'
