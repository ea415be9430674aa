prop = 'C22'
pkg = 'internal/threads'
edits = [('internal/threads/models.go', '\t} else if ts&ThreadStateBlockedOnMonitorEnter != 0 {\n\t\treturn "BLOCKED"\n\t} else if ts&ThreadStateWaitingIndefinitely != 0 {\n\t\treturn "WAITING"', '\t} else if ts&ThreadStateWaitingIndefinitely != 0 {\n\t\treturn "WAITING"\n\t} else if ts&ThreadStateBlockedOnMonitorEnter != 0 {\n\t\treturn "BLOCKED"')]
needs = 'a status with both the blocked and the waiting bit'
breaks = 'a blocked thread prints as waiting'
demo = 'package threads\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tif s := ThreadStatus(0x411).String(); s != "BLOCKED" {\n\t\tt.Fatal(s)\n\t}\n}\n'
