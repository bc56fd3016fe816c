#include "util.hh"
#include <unistd.h>
#include <sys/mman.h>
Capture::Capture()
{
  fflush (stdout);
  fflush (stderr);
  for (int i = 0; i < 2; i++)
    {
      save[i] = dup (i + 1);
      mem[i] = memfd_create ("capture", MFD_CLOEXEC);
      if (save[i] < 0 || mem[i] < 0)
        {
          fprintf (stderr, "cannot capture output\n");
          _exit (2);
        }
      dup2 (mem[i], i + 1);
    }
}
void
Capture::stop()
{
  if (!active)
    return;
  active = false;
  fflush (stdout);
  fflush (stderr);
  for (int i = 0; i < 2; i++)
    {
      dup2 (save[i], i + 1);
      close (save[i]);
      off_t n = lseek (mem[i], 0, SEEK_END);
      if (n > 0)
        {
          text[i].resize (n);
          if (pread (mem[i], &text[i][0], n, 0) != n)
            text[i] = "?";
        }
      close (mem[i]);
    }
}
Capture::~Capture()
{
  stop();
}
