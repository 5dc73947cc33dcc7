# Contracts used by the whole-program absence-of-crash proof.

# Position of the n-th occurrence, or -1.
define searchfrom(s string, f string, n int, prev int) int = ite(n <= 1, 0, prev + len(f))
unfolddef nthidx(s string, f string, n int) int =
  ite(n > 1 && nthidx(s, f, n-1) < 0, -1,
  ite(index(s[searchfrom(s, f, n, nthidx(s, f, n-1)):], f) < 0, -1,
      searchfrom(s, f, n, nthidx(s, f, n-1)) + index(s[searchfrom(s, f, n, nthidx(s, f, n-1)):], f)))

func vxlisp.IntFromStringFindNth(str, find, nth) (r)
pure
quant
inv at (m int, i int): m >= 1 && i == searchfrom(str, find, m, nthidx(str, find, m-1))
inv found (m int): implies(m > 1, nthidx(str, find, m-1) >= 0)
ensures nth: implies(nth >= 1 && r >= 0, r == nthidx(str, find, nth))
ensures low: r >= -1
ensures high: r + len(find) <= len(str) || r < 0

func vxlisp.NewMsgFromTextblock(textblock, line, char, path, code, data) (r)
quant

func vxlisp.ProjectReadAllFromPath(projectpath) (project, msgblock)
ensures natives: implies(!msgblock.iserror, project.mapnative != nil)

func vxlisp.TextblockParse(textblock) (r, msgs)
inv known (stk []*vxtextblock): forall(i, 0, len(stk), allocated(stk[i]))
inv knownphrase (ph *vxtextblock): allocated(ph)
inv bottom (stk []*vxtextblock): implies(len(stk) > 0, stk[0].blocktype == "")
inv inner (stk []*vxtextblock): forall(i, 1, len(stk), stk[i].blocktype == "(" || stk[i].blocktype == "[" || stk[i].blocktype == "{")
inv top (stk []*vxtextblock, ph *vxtextblock): ite(len(stk) == 0, ph.blocktype == "", ph.blocktype == "(" || ph.blocktype == "[" || ph.blocktype == "{")
inv state (ph *vxtextblock, state string): implies(state == "(" || state == "[" || state == "{" || state == "", state == ph.blocktype)
