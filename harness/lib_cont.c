/* lists, tables and sorting against a reference model */
#include "util.h"
#include "list.h"
#include "table.h"
#include "sort.h"
#include <stdlib.h>
BEGIN_ITEM(It) int id; END_ITEM(It);
BEGIN_LIST_OF(It) END_LIST(Itlist);
#define MX 16
static Itlist L; static It it[MX]; static int ord[MX], cnt, inlist[MX], next_id;
static void chk(void) {
  int i; It *p = L.first;
  sym_assert(L.count == cnt, "list count");
  for (i = 0; i < cnt; i++) {
    sym_assert(p == &it[ord[i]], "list order"); sym_assert(p->prev == (i ? &it[ord[i - 1]] : NULL), "backward link"); p = p->next;
  }
  sym_assert(p == NULL, "list end"); sym_assert(L.last == (cnt ? &it[ord[cnt - 1]] : NULL), "last item"); sym_assert(L.first == (cnt ? &it[ord[0]] : NULL), "first item");
  if (L.array) for (i = 0; i < cnt; i++) sym_assert(L.array[i] == &it[ord[i]], "an array that is kept is current");
}
static void ins(int at, int id) { int i; for (i = cnt++; i > at; i--) ord[i] = ord[i - 1]; ord[at] = id; inlist[id] = 1; }
static int emptied[MX], nemptied;
static void take(void *p) { emptied[nemptied++] = ((It *)p)->id; }
static void m_list(void) {
  int step, n = sym_param("steps", 5), i;
  if (sym_param("init", 0)) { memset(&L, 0xA5, sizeof L); list_initialize(&L); }
  for (i = 0; i < MX; i++) it[i].id = i;
  for (step = 0; step < n; step++) {
    int op = sym_conc(sym_range("op", 0, 5)), at = 0, id;
    for (id = 0; id < MX && inlist[id]; id++);
    if (op >= 2 && op <= 4) { if (cnt == 0) continue; at = sym_conc(sym_range("at", 0, cnt - 1)); }
    switch (op) {
    case 0: list_insert_first(&L, &it[id]); ins(0, id); break;
    case 1: list_insert_last(&L, &it[id]); ins(cnt, id); break;
    case 2: list_insert_before(&L, &it[id], &it[ord[at]]); ins(at, id); break;
    case 3: list_insert_after(&L, &it[ord[at]], &it[id]); ins(at + 1, id); break;
    case 4: { int g = ord[at]; list_remove(&L, &it[g]); inlist[g] = 0; for (i = at; i + 1 < cnt; i++) ord[i] = ord[i + 1]; cnt--;
      sym_assert(!it[g].prev && !it[g].next, "removed item is detached"); break; }
    case 5: list_in_array(&L); if (cnt) { sym_assert(L.array != NULL, "array made"); sym_reach("array"); } break;
    }
    chk();
  }
  { int c = cnt; list_empty(&L, take); sym_assert(nemptied == c, "every item is processed once"); for (i = 0; i < c; i++) sym_assert(emptied[i] == ord[i], "items are processed in order"); cnt = 0; chk(); }
  sym_reach("done");
}
/* ---- tables ---- */
BEGIN_ENTRY(En) int id; END_ENTRY(En);
BEGIN_TABLE_OF(En, Enlist) END_TABLE(Entable);
static Entable Tb; static En en[8]; static char key[8][400]; static int present[8];
static int kd(const char *a, const char *b, int w) { int i, d = 0; for (i = 0; i < w; i++) d |= a[i] != b[i]; return d; }
static int seen[8]; static void tk(void *p) { seen[((En *)p)->id]++; }
static void tchk(int n, int w) {
  int i, j, c = 0; long k; 
  for (i = 0; i < n; i++) { En *e = table_lookup(&Tb, key[i]); sym_assert(e == (present[i] ? &en[i] : NULL), "an entry is found by its key exactly when it is in the table"); c += present[i]; }
  sym_assert(Tb.count == c, "table count");
  if (sym_param("arr", 1)) {
    int hit[8]; memset(hit, 0, sizeof hit);
    table_in_array(&Tb);
    for (j = 0; j < c; j++) { k = Tb.array[j]->id; sym_assert(k >= 0 && k < n && present[k], "array holds entries"); hit[k]++; }
    for (i = 0; i < n; i++) sym_assert(hit[i] == present[i], "each entry is in the array once");
  }
}
static unsigned char kbyte(const char *nm) {
  static const unsigned char set[] = {1, 'a', 'b', 'c', 0xC3, 0xFF};
  if (sym_param("full", 0)) return sym_range(nm, 1, 255);
  return set[sym_conc(sym_range(nm, 0, 5))];
}
static void m_table(void) {
  int n = sym_param("n", 3), w = sym_param("w", 2), pre = sym_param("pre", 0), i, j, len; /* pre: length of a beginning all keys share */
  if (sym_param("init", 0)) { memset(&Tb, 0xA5, sizeof Tb); table_initialize(&Tb); }
  for (i = 0; i < n; i++) { len = sym_param("fixlen", 0) ? w : symlen("len", 0, w); memset(key[i], sym_param("fill", 0xFF), pre); for (j = 0; j < len; j++) key[i][pre + j] = kbyte("k"); key[i][pre + len] = 0; en[i].key = key[i]; en[i].id = i; for (j = 0; j < i; j++) sym_assume(kd(key[i] + pre, key[j] + pre, w + 1)); }
  for (i = 0; i < n; i++) { table_insert(&Tb, &en[i]); present[i] = 1; if (i == n - 1 || sym_param("each", 0)) tchk(n, w); }
  if (sym_param("rem", 1)) { i = sym_conc(sym_range("rem", 0, n - 1)); table_remove(&Tb, &en[i]); present[i] = 0; tchk(n, w); if (sym_range("back", 0, 1)) { table_insert(&Tb, &en[i]); present[i] = 1; tchk(n, w); } }
  if (!sym_param("empty", 1)) { sym_reach("done"); return; }
  table_empty(&Tb, tk);
  for (i = 0; i < n; i++) { sym_assert(seen[i] == present[i], "emptying processes each entry once"); present[i] = 0; }
  tchk(n, w); sym_reach("done");
}
/* ---- sorting ---- */
struct rec { unsigned k; int id; }; static struct rec R[MX]; static void *arr[MX];
static int c3(void *a, void *b) { unsigned x = ((struct rec *)a)->k, y = ((struct rec *)b)->k; return x < y ? -1 : x > y; }
static int cdiff(void *a, void *b) { return ((struct rec *)b)->k - ((struct rec *)a)->k; }
static void m_sort(void) {
  int n = symlen("n", sym_param("nmin", 0), sym_param("n", 5)), i, j, down = sym_param("down", 0), hit[MX];
  for (i = 0; i < n; i++) { R[i].k = down ? sym_range("k", 0, 1000000) : sym_u32("k"); R[i].id = i; arr[i] = &R[i]; hit[i] = 0; }
  arr[n] = &R[MX - 1];
  sort((long)n, arr, down ? cdiff : c3);
  for (i = 0; i < n; i++) { struct rec *r = arr[i]; hit[r->id]++; }
  for (i = 0; i < n; i++) sym_assert(hit[i] == 1, "sorting keeps every element once");
  for (i = 0; i + 1 < n; i++) { struct rec *p = arr[i], *q = arr[i + 1]; sym_assert(down ? p->k >= q->k : p->k <= q->k, "sorted in the order of the comparison"); }
  sym_assert(arr[n] == &R[MX - 1], "nothing beyond the array is touched"); sym_reach("done");
}
/* many elements: an ordered, reversed, equal or alternating sequence with two symbolic elements anywhere */
static struct rec RB[70]; static void *ab[70];
static void m_sortbig(void) {
  int n = sym_param("n", 40), kind = sym_conc(sym_range("kind", 0, 3)), i, p, q, hit[70]; 
  for (i = 0; i < n; i++) { RB[i].k = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? n / 2 : i % 3 * 10; RB[i].id = i; ab[i] = &RB[i]; hit[i] = 0; }
  p = sym_conc(sym_range("p", 0, n - 1)); RB[p].k = sym_range("kp", 0, n);
  if (sym_param("two", 0)) { q = sym_param("q", 0); RB[q].k = sym_range("kq", 0, n); }
  ab[n] = &RB[69]; sort((long)n, ab, c3);
  for (i = 0; i < n; i++) { struct rec *r = ab[i]; hit[r->id]++; }
  for (i = 0; i < n; i++) sym_assert(hit[i] == 1, "sorting keeps every element once");
  for (i = 0; i + 1 < n; i++) { struct rec *a = ab[i], *b = ab[i + 1]; sym_assert(a->k <= b->k, "sorted in the order of the comparison"); }
  sym_assert(ab[n] == &RB[69], "nothing beyond the array is touched"); sym_reach("done");
}
void harness_main(void) { if (sym_param("mode", 0) == 3) { m_sortbig(); return; } switch (sym_param("mode", 0)) { case 0: m_list(); break; case 1: m_table(); break; default: m_sort(); } }
