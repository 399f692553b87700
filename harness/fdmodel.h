// Contract of crucible::Fd's constructors as used by other modules: an Fd
// designates one open file number (negative: none).  The sharing and lifetime
// of the handles behind it are proved separately (C22).
#pragma once
#include "open.h"
#include "crucible/fd.h"
static inline void fd_model(crucible::Fd *self, int n)
{
	crucible::IOHandle *h = static_cast<crucible::IOHandle *>(vc_alloc(sizeof(crucible::IOHandle)));
	h->m_fd = n < 0 ? -1 : n;
	std::shared_ptr<crucible::IOHandle> *p = &self->m_handle;
	new (p) std::shared_ptr<crucible::IOHandle>(std::shared_ptr<crucible::IOHandle>(), h);
}
extern "C" {
__attribute__((used)) void h_fd_default(crucible::Fd *self) { fd_model(self, -1); }
__attribute__((used)) void h_fd_int(crucible::Fd *self, int n) { fd_model(self, n); }
__attribute__((used)) crucible::Fd *h_fd_assign(crucible::Fd *self, int n) { fd_model(self, n); return self; }
}
