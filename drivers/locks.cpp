// Instantiates every operation of the lock guards, so that the analysis sees their (also implicit) definitions.
#include <mutable/util/reader_writer_lock.hpp>

namespace {
template<typename L>
void use(m::reader_writer_mutex &m)
{
    L a(m, std::defer_lock);
    L b(m);
    L d(m, std::adopt_lock);
    L c(std::move(b));
    a = std::move(c);
    a.unlock();
    a.lock();
}
}

void driver_locks(m::reader_writer_mutex &m)
{
    use<m::read_lock>(m);
    use<m::write_lock>(m);
    use<m::upgrade_lock>(m);
    m::upgrade_lock u(m);
    (void) u.upgrade().owns_lock();
    m::reader_writer_lock a(m), b(std::move(a));
    a = std::move(b);
    a.lock_read();
    (void) a.upgrade();
    a.unlock();
    a.lock_write();
}
