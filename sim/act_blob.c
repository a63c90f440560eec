/* C08, C09: byte streams and whole-file reads. */
#include "act.h"
#include "wizard/blob-private.h"
#include "blob.h"

extern WizardExport WizardSizeType GetBlobSize(BlobInfo *);

static void fill(unsigned char *p, long n, const SimOp *o)
{
  long i;
  sim_fill(p, n, 8000 + (unsigned long) o->id);
  if (o->kind == K8_WS)
    for (i = 0; i < n; i++) p[i] = (unsigned char) (1 + p[i] % 255);
  if (sim_cfg(14) == 1)
    for (i = 0; i < n; i++) p[i] = (unsigned char) ('a' + p[i] % 3);
}

static void run(int prop)
{
  const SimOp *o;
  BlobInfo *b = NULL;
  long fds = sim_open_fds(), maps = sim_live_maps();
  int fd = -1;
  (void) prop;
  while ((o = sim_op()) != NULL)
    {
      ExceptionInfo *e;
      char path[64];
      unsigned char *buf = NULL;
      long n = o->a[0], r = 0, i;
      sim_inv(o);
      sim_quiet(1);
      e = AcquireExceptionInfo();
      if (B_WRITES(o->kind) || B_READS(o->kind))
        {
          buf = (unsigned char *) malloc((size_t) n + 1);
          if (B_READS(o->kind))
            {
              free(buf);
              buf = (unsigned char *) malloc(n ? (size_t) n : 1);
            }
          else
            fill(buf, n, o);
        }
      sim_quiet(0);
      if (b == NULL && o->kind != K8_OPENW && o->kind != K8_OPENR && o->kind != K8_WHOLE && o->kind != K8_CUT)
        {
          sim_ret(o, -9, 0, NULL, 0);                      /* the stream could not be opened */
          goto next;
        }
      switch (o->kind)
        {
        case K8_OPENW:
        case K8_OPENR:
          if (o->a[1] == B_FD)
            {
              char real[64];
              B_NAME(real, o->a[0], 0);
              sim_quiet(1);
              fd = o->kind == K8_OPENW ? open(real, O_WRONLY | O_CREAT | O_TRUNC, 0600) : open(real, O_RDONLY);
              sim_quiet(0);
              sprintf(path, "fd:%d", fd);
            }
          else
            B_NAME(path, o->a[0], o->a[1]);
          b = OpenBlob(path, o->kind == K8_OPENW ? (o->a[3] ? WriteBlobMode : WriteBinaryBlobMode) : (o->a[3] ? ReadBlobMode : ReadBinaryBlobMode), o->a[2] ? WizardTrue : WizardFalse, e);
          if (b == NULL && fd >= 0)
            {
              sim_quiet(1);
              close(fd);
              sim_quiet(0);
              fd = -1;
            }
          sim_ret(o, b != NULL, 0, NULL, 0);
          break;
        case K8_W: r = WriteBlob(b, (size_t) n, buf); sim_ret(o, r, 0, NULL, 0); break;
        case K8_WC: r = WriteBlobChunk(b, (size_t) n, buf); sim_ret(o, r, 0, NULL, 0); break;
        case K8_WB: r = WriteBlobByte(b, *buf); sim_ret(o, r, 0, NULL, 0); break;
        case K8_WS: buf[n] = '\0'; r = WriteBlobString(b, (char *) buf); sim_ret(o, r, 0, NULL, 0); break;
        case K8_R: r = ReadBlob(b, (size_t) n, buf); sim_ret(o, r, 0, buf, r > 0 && r <= n ? r : 0); break;
        case K8_RC: r = ReadBlobChunk(b, (size_t) n, buf); sim_ret(o, r, 0, buf, r > 0 && r <= n ? r : 0); break;
        case K8_RB:
          r = ReadBlobByte(b);
          *buf = (unsigned char) r;
          sim_ret(o, r == EOF ? 0 : 1, r, buf, r == EOF ? 0 : 1);
          break;
        case K8_EOF: sim_ret(o, EOFBlob(b), 0, NULL, 0); break;
        case K8_TELL: sim_ret(o, (long) TellBlob(b), 0, NULL, 0); break;
        case K8_SIZE: sim_ret(o, (long) GetBlobSize(b), 0, NULL, 0); break;
        case K8_SYNC: sim_ret(o, SyncBlob(b), 0, NULL, 0); break;
        case K8_CLOSE:
          r = o->a[0] ? 1 : CloseBlob(b) != WizardFalse;
          b = DestroyBlob(b);
          if (fd >= 0)
            {
              sim_quiet(1);
              close(fd);
              sim_quiet(0);
            }
          fd = -1;
          sim_ret(o, r, o->a[0], NULL, 0);
          break;
        case K8_CUT:                                       /* the file was torn by a crash */
          B_NAME(path, o->a[0], o->a[1]);
          n = sim_file_size(path);
          if (n > 3)
            {
              sim_quiet(1);
              buf = (unsigned char *) malloc((size_t) n);
              sim_file_read(path, buf, n);
              r = 3 + o->a[2] % (n - 3);
              sim_file_write(path, buf, r);
              sim_quiet(0);
            }
          sim_ret(o, r, n, NULL, 0);
          break;
        case K8_WHOLE:
          {
            size_t length = 0;
            void *p = NULL;
            StringInfo *s = NULL;
            B_NAME(path, o->a[0], o->a[3]);
            switch (o->a[1])
              {
              case 0: p = FileToBlob(path, (size_t) o->a[2], &length, e); break;
              case 1: p = FileToString(path, (size_t) o->a[2], e); if (p != NULL) length = strlen((char *) p); break;
              case 2: s = FileToStringInfo(path, (size_t) o->a[2], e); break;
              default: s = ConfigureFileToStringInfo(path); break;
              }
            if (s != NULL)
              {
                p = GetStringInfoDatum(s);
                length = GetStringInfoLength(s);
              }
            sim_ret(o, p != NULL, o->a[1] == 3 ? 1 : GetExceptionSeverity(e) >= ErrorException, p, p ? (long) length : 0);
            if (s != NULL)
              s = DestroyStringInfo(s);
            else if (p != NULL)
              p = RelinquishWizardMemory(p);
            break;
          }
        }
    next:
      sim_quiet(1);
      if (buf) free(buf);
      e = DestroyExceptionInfo(e);
      sim_quiet(0);
      if (b == NULL && sim_cfg(13))
        {
          if (sim_open_fds() != fds) sim_violation("left-open", "%ld descriptors are open after the call, %ld before", sim_open_fds(), fds);
          if (sim_live_maps() != maps) sim_violation("left-mapped", "%ld mappings are left after the call, %ld before", sim_live_maps(), maps);
        }
      (void) i;
    }
  if (b != NULL) b = DestroyBlob(b);
}
static void setup(void) { sim_quiet(1); WizardsToolkitGenesis("sim"); sim_quiet(0); }
void c08_setup(void) { setup(); }
void c08_thread(int thr) { (void) thr; run(8); }
void c08_teardown(void) { }
void c09_setup(void) { setup(); }
void c09_thread(int thr) { (void) thr; run(9); }
void c09_teardown(void) { }
