EDITS = []


def E(name, exp, *subs):
    EDITS.append((name, exp, list(subs)))


RB = 'include/xtr/detail/synchronized_ring_buffer.hpp'
ST = 'include/xtr/detail/string_table.hpp'
SK = 'include/xtr/sink.hpp'
Q = ['C01', 'C02', 'C03', 'C04', 'C05']

# ---- queue
E('q-publish-relaxed', {'bad': ['C01']}, (RB, 'nwritten_.store(wrnwritten_, std::memory_order_release)', 'nwritten_.store(wrnwritten_, std::memory_order_relaxed)'))
E('q-publish-before-copy', {'bad': ['C01']}, (SK, '''    copy(s.begin(), &detail::trampolineN<Format, Level, detail::consumer, Func>);
    copy(func_pos, std::forward<Func>(func));

    buf_.reduce_writable(size);''', '''    copy(s.begin(), &detail::trampolineN<Format, Level, detail::consumer, Func>);
    buf_.reduce_writable(size);
    copy(func_pos, std::forward<Func>(func));
'''))
E('q-acquire-relaxed', {'bad': ['C01']}, (RB, 'nwritten_.load(std::memory_order_acquire) - nr', 'nwritten_.load(std::memory_order_relaxed) - nr'))
E('q-size-off', {'bad': ['C01']}, (SK, 'if ((s.size() < size)) [[unlikely]]', 'if ((s.size() < size - sizeof(fptr_t))) [[unlikely]]'))
E('q-trunc-early', {'bad': ['C03']}, (ST, 'if (s.size() == buf.capacity() || is_non_blocking_v<Tags>)\n                    return', 'if (s.size() >= buf.capacity() / 2 || is_non_blocking_v<Tags>)\n                    return'))
E('q-trunc-always-when-empty', {'bad': ['C03']}, (ST, 'if (s.end() < str_end) [[unlikely]]\n            {', '{'))
E('q-trunc-cstr-early', {'bad': ['C03']}, (ST, '''if (s.size() == buf.capacity() || is_non_blocking_v<Tags>)
                    {
                        pos = begin;''', '''if (s.size() != 0 || is_non_blocking_v<Tags>)
                    {
                        pos = begin;'''))
E('q-try-loops', {'bad': ['C03']}, (RB, '''            if constexpr (is_non_blocking_v<Tags>)
                break;''', '''            if (is_non_blocking_v<Tags> && sz == 0)
                break;'''))
E('q-drop-double', {'bad': ['C03']}, (SK, '''    if (detail::is_non_blocking_v<Tags> && s.empty()) [[unlikely]]
        return;

    copy(s.begin(), &detail::trampolineN''', '''    if (detail::is_non_blocking_v<Tags> && s.empty()) [[unlikely]]
        s = buf_.write_span<Tags>(size);
    if (detail::is_non_blocking_v<Tags> && s.empty()) [[unlikely]]
        return;

    copy(s.begin(), &detail::trampolineN'''))
E('q-cstr-noreset', {'bad': ['C02']}, (ST, '''                        pos = begin;
''', ''))
E('q-strz', {'bad': ['C02']}, (ST, '''        std::memcpy(pos, sv.data(), sv.length());
        pos += sv.length();
''', '''        std::memcpy(pos, sv.data(), sv.length());
        pos += sv.length() + 1;
'''))

# behaviour preserving
E('r-span-helper', {'ok': Q}, (RB, '''        size_type sz = wrnread_plus_capacity_ - wrnwritten_;
        const auto b = wrbase_ + clamp(wrnwritten_, wrcapacity());

        while (sz < minsize) [[unlikely]]
        {
            if constexpr (!is_non_blocking_v<Tags>)
                pause();

            wrnread_plus_capacity_ =
                nread_plus_capacity_.load(std::memory_order_acquire);
            sz = wrnread_plus_capacity_ - wrnwritten_;

            if constexpr (is_non_blocking_v<Tags>)
                break;
        }
''', '''        size_type sz = avail();
        const auto b = wrbase_ + clamp(wrnwritten_, wrcapacity());

        for (; sz < minsize; )
        {
            if constexpr (!is_non_blocking_v<Tags>)
                pause();

            refresh();
            sz = avail();

            if constexpr (is_non_blocking_v<Tags>)
                break;
        }
'''), (RB, '''    size_type wrcapacity() const noexcept
    {''', '''    size_type avail() const noexcept { return wrnread_plus_capacity_ - wrnwritten_; }
    void refresh() noexcept { wrnread_plus_capacity_ = nread_plus_capacity_.load(std::memory_order_acquire); }
    size_type wrcapacity() const noexcept
    {'''))
E('r-sv-loop', {'ok': Q}, (ST, '''        std::byte* str_end = pos + sv.length();
        while (end < str_end) [[unlikely]]
        {
            pause();
            const auto s = buf.write_span();
            if (s.end() < str_end) [[unlikely]]
            {
                if (s.size() == buf.capacity() || is_non_blocking_v<Tags>)
                    return string_table_entry{string_table_entry::truncated};
            }
            end = s.end();
        }
''', '''        const std::size_t len = sv.size();
        std::byte* const str_end = pos + len;
        for (;;)
        {
            if (str_end <= end)
                break;
            pause();
            const auto s = buf.write_span();
            end = s.end();
            if (str_end > end && (is_non_blocking_v<Tags> || buf.capacity() == s.size()))
                return string_table_entry{string_table_entry::truncated};
        }
'''))
E('r-cstr-loop', {'ok': Q}, (ST, '''            while (pos == end) [[unlikely]]
            {
                pause();
                const auto s = buf.write_span();
                if (s.end() == end) [[unlikely]]
                {
                    if (s.size() == buf.capacity() || is_non_blocking_v<Tags>)
                    {
                        pos = begin;
                        return string_table_entry{string_table_entry::truncated};
                    }
                }
                end = s.end();
            }
            ::new (pos++) char(*str++);''', '''            while (pos == end) [[unlikely]]
            {
                pause();
                const auto s = buf.write_span();
                const bool no_progress = s.end() == end;
                const bool whole = s.size() == buf.capacity();
                if (no_progress && (whole || is_non_blocking_v<Tags>))
                {
                    pos = begin;
                    return string_table_entry{string_table_entry::truncated};
                }
                end = s.end();
            }
            ::new (pos) char(*str);
            ++pos;
            ++str;'''))

# ---- lines
SA = 'include/xtr/detail/sanitize.hpp'
SR = 'include/xtr/detail/string_ref.hpp'
LM = 'include/xtr/log_macros.hpp'
PR = 'include/xtr/detail/print.hpp'
E('l-del-raw', {'bad': ['C06']}, (SA, "c <= '~'", "c <= '\\x7f'"))
E('l-high-raw', {'bad': ['C06']}, (SA, "if (c >= ' ' && c <= '~' && c != '\\\\') [[likely]]", "if (static_cast<unsigned char>(c) >= ' ' && c != '~' + 1 && c != '\\\\')"))
E('l-nibble', {'bad': ['C06']}, (SA, 'hex[(c >> 4) & 0xF]', "hex[(c >> 4) & 0x7]"))
E('l-stop-tab', {'bad': ['C06']}, (SR, "while (*ref.str != '\\0')", "while (*ref.str != '\\0' && *ref.str != '\\t')"))
E('l-sv-nul', {'bad': ['C06']}, (SR, 'for (const char c : ref.str)\n', 'for (const char c : ref.str) if (c)\n'))
E('l-raw-table', {'bad': ['C06']}, (ST, '''inline string_ref<std::string_view> transform_string_table_entry(
        std::byte*& pos,''', '''inline std::string_view transform_string_table_entry(
        std::byte*& pos,'''), (ST, '''return string_ref<std::string_view>("<truncated>");
        const''', '''return "<truncated>";
        const'''), (ST, '''        pos += entry.size;
        return string_ref<std::string_view>(str);''', '''        pos += entry.size;
        return str;'''))
E('l-gate-strict', {'bad': ['C07']}, (LM, '(SINK).level() >= xtr::log_level_t::LEVEL', '(SINK).level() > xtr::log_level_t::LEVEL'))
E('l-fatal-nosync', {'bad': ['C07']}, (LM, '                    (SINK).sync();                                                  \\\n', ''))
E('l-fatal-only-enabled', {'bad': ['C07']}, (LM, 'if constexpr (xtr::log_level_t::LEVEL == xtr::log_level_t::fatal)   \\', 'if (xtr::log_level_t::LEVEL == xtr::log_level_t::fatal && (SINK).level() >= xtr::log_level_t::LEVEL) \\'))
E('l-style', {'bad': ['C07']}, (PR, 'buf.lstyle(level),', 'buf.lstyle(log_level_t::info),'))
E('l-ndebug', {'bad': ['C07']}, (LM, 'xtr::log_level_t::LEVEL != xtr::log_level_t::debug ||               \\\n                !XTR_NDEBUG)', 'xtr::log_level_t::LEVEL != xtr::log_level_t::debug ||               \\\n                XTR_NDEBUG)'))
E('r-san-unsigned', {'ok': ['C06']}, (SA, '''        if (c >= ' ' && c <= '~' && c != '\\\\') [[likely]]
        {
            *pos++ = c;
        }
        else
        {
            constexpr const char hex[] = "0123456789ABCDEF";
            *pos++ = '\\\\';
            *pos++ = 'x';
            *pos++ = hex[(c >> 4) & 0xF];
            *pos++ = hex[c & 0xF];
        }''', '''        const auto u = static_cast<unsigned char>(c);
        const bool printable = u - 32u < 95u;
        if (!printable || u == 92)
        {
            const auto digit = [](unsigned d) { return char(d < 10 ? '0' + d : 'A' + d - 10); };
            const char esc[4] = {'\\\\', 'x', digit(u >> 4), digit(u & 15u)};
            for (int i = 0; i < 4; ++i)
                *pos++ = esc[i];
            return;
        }
        *pos = c;
        ++pos;'''))
E('r-san-index', {'ok': ['C06']}, (SR, '''            for (const char c : ref.str)
                xtr::detail::sanitize_char_to(pos, c);''', '''            const auto n = ref.str.size();
            for (std::size_t i = 0; i < n; ++i)
                xtr::detail::sanitize_char_to(pos, ref.str[i]);'''),
  (SR, '''            while (*ref.str != '\\0')
                xtr::detail::sanitize_char_to(pos, *ref.str++);''', '''            for (const char* p = ref.str; char c = *p; ++p)
                xtr::detail::sanitize_char_to(pos, c);'''))
E('r-san-strlen', {'ok': ['C06']}, (SR, '''            while (*ref.str != '\\0')
                xtr::detail::sanitize_char_to(pos, *ref.str++);''', '''            const std::string_view sv(ref.str);
            for (auto it = sv.begin(); it != sv.end(); ++it)
                xtr::detail::sanitize_char_to(pos, *it);'''))
E('r-gate-helper', {'ok': ['C07', 'C04', 'C03']}, (LM, 'if ((SINK).level() >= xtr::log_level_t::LEVEL)', 'if ((SINK).enabled(xtr::log_level_t::LEVEL))'),
  (SK, '    void set_level(log_level_t level)', '    bool enabled(log_level_t l) const { return !(level() < l); }\n    void set_level(log_level_t level)'))

# ---- waiting for the background thread, close, shutdown
SI = 'src/sink.cpp'
TR = 'include/xtr/detail/trampolines.hpp'
CO = 'src/consumer.cpp'
BU = 'src/buffer.cpp'
IU = 'src/io_uring_fd_storage.cpp'
PX = 'src/posix_fd_storage.cpp'
FB = 'src/fd_storage_base.cpp'
LGH = 'include/xtr/logger.hpp'
LF = ['C08', 'C09', 'C10']
E('l-sync-no-flush', {'bad': ['C08']}, (SI, '            c.buf.flush();\n            c.buf.storage().sync();', '            c.buf.storage().sync();'))
E('l-sync-order', {'bad': ['C08']}, (SI, '            c.buf.flush();\n            c.buf.storage().sync();', '            c.buf.storage().sync();\n            c.buf.flush();'))
E('l-wait-if', {'bad': ['C08', 'C09']}, (SI, '    while (!notified)\n        cv.wait(lock);', '    if (!notified)\n        cv.wait(lock);'))
E('l-ack-first', {'bad': ['C08', 'C09']}, (SI, '''            func(c);

            std::scoped_lock lock{m};
            notified = true;''', '''            std::scoped_lock lock{m};
            notified = true;
            func(c);'''), (SI, '            cv.notify_one();\n', '            cv.notify_one();\n'))
E('l-ack-unlocked', {'bad': ['C08']}, (SI, '''            std::scoped_lock lock{m};
            notified = true;''', '''            notified = true;
            std::scoped_lock lock{m};'''))
E('l-notify-unlocked', {'bad': ['C08']}, (SI, '            std::scoped_lock lock{m};\n            notified = true;', '            {\n            std::scoped_lock lock{m};\n            notified = true;\n            }'))
E('l-notified-init', {'bad': ['C08', 'C09']}, (SI, 'bool notified = false;', 'bool notified = true;'))
E('l-flush-early-return', {'bad': ['C08']}, (BU, '''            pos_ = begin_ = end_ = nullptr;
        }
        if (storage_)
            storage_->flush();''', '''            pos_ = begin_ = end_ = nullptr;
            if (storage_)
                storage_->flush();
        }'''))
E('l-uring-pending-1', {'bad': ['C08', 'C10']}, (IU, '    while (pending_cqe_count_ > 0)\n        wait_for_one_cqe();\n    fd_storage_base::sync();', '    while (pending_cqe_count_ > 1)\n        wait_for_one_cqe();\n    fd_storage_base::sync();'))
E('l-uring-sync-first', {'bad': ['C08']}, (IU, '    while (pending_cqe_count_ > 0)\n        wait_for_one_cqe();\n    fd_storage_base::sync();', '    fd_storage_base::sync();\n    while (pending_cqe_count_ > 0)\n        wait_for_one_cqe();'))
E('l-uring-flush-batch', {'bad': ['C08']}, (IU, '    // SQEs may have been prepared but not submitted, due to batching\n    io', '    if (batch_index_ % batch_size_ != 0)\n    io'))
E('l-ok-wait-pred', {'ok': LF}, (SI, '    while (!notified)\n        cv.wait(lock);', '    cv.wait(lock, [&] { return notified; });'))
E('l-ok-notify-all', {'ok': LF}, (SI, 'cv.notify_one();', 'cv.notify_all();'))
E('l-ok-lock-guard', {'ok': LF}, (SI, 'std::scoped_lock lock{m};', 'std::lock_guard<std::mutex> guard{m};'))
E('l-ok-dirty-helper', {'ok': LF}, (BU, 'XTR_FUNC\nvoid xtr::detail::buffer::flush() noexcept', 'namespace { bool dirty(const char* p, const char* b) { return p != b; } }\nXTR_FUNC\nvoid xtr::detail::buffer::flush() noexcept'), (BU, '        if (pos_ != begin_)\n        {\n            storage_->submit', '        if (dirty(pos_, begin_))\n        {\n            storage_->submit'))
E('l-ok-do-while', {'ok': LF}, (IU, '    while (pending_cqe_count_ > 0)\n        wait_for_one_cqe();\n    fd_storage_base::sync();', '    for (;;)\n    {\n        if (pending_cqe_count_ == 0)\n            break;\n        wait_for_one_cqe();\n    }\n    fd_storage_base::sync();'))
E('l-open-false-first', {'bad': ['C09']}, (SI, '''        sync_post([](detail::consumer& c) { c.destroy = true; });
        open_ = false;''', '''        open_ = false;
        sync_post([](detail::consumer& c) { c.destroy = true; });'''))
E('l-clear-first', {'bad': ['C09']}, (SI, '''        sync_post([](detail::consumer& c) { c.destroy = true; });
        open_ = false;''', '''        buf_.clear();
        sync_post([](detail::consumer& c) { c.destroy = true; });
        open_ = false;'''))
E('l-close-no-clear', {'bad': ['C09']}, (SI, '        buf_.clear();\n', ''))
E('l-close-post', {'bad': ['C09']}, (SI, 'sync_post([](detail::consumer& c) { c.destroy = true; });', 'post([](detail::consumer& c, auto&) { c.destroy = true; });'))
E('l-close-sync-then-post', {'bad': ['C09']}, (SI, 'sync_post([](detail::consumer& c) { c.destroy = true; });', 'sync_post([](detail::consumer&) { });\n        post([](detail::consumer& c, auto&) { c.destroy = true; });'))
E('l-destroy-not-reset', {'bad': ['C09']}, (CO, '        destroy = false;\n', ''))
E('l-destroy-late', {'bad': ['C09']}, (CO, '''        if (destroy)
        {
            using std::swap;''', '''        sinks_[n]->buf_.reduce_readable(
            sink::ring_buffer::size_type(pos - span.begin()));
        if (destroy)
        {
            using std::swap;'''))
E('l-no-swap', {'bad': ['C09']}, (CO, '            swap(sinks_[n], sinks_.back()); // possible self-swap, ok\n', ''))
E('l-swap-front', {'bad': ['C09']}, (CO, 'swap(sinks_[n], sinks_.back());', 'swap(sinks_[0], sinks_.back());'))
E('l-ok-erase', {'ok': LF}, (CO, '''            swap(sinks_[n], sinks_.back()); // possible self-swap, ok
            sinks_.pop_back();''', '''            sinks_.erase(sinks_.begin() + std::ptrdiff_t(n));'''), (CO, '            using std::swap;\n', ''))
E('l-ok-move-back', {'ok': LF}, (CO, 'swap(sinks_[n], sinks_.back()); // possible self-swap, ok', 'if (n + 1 != sinks_.size()) swap(sinks_[n], sinks_.back());'))
E('l-clear-nread', {'bad': ['C09']}, (RB, '        nread_plus_capacity_ = capacity();\n        dropped', '        dropped'))
# idle flush and shutdown
E('l-stop-at-one', {'bad': ['C10']}, (CO, 'for (std::size_t i = 0; !sinks_.empty(); ++i)', 'for (std::size_t i = 0; sinks_.size() > 1; ++i)'))
E('l-no-idle-flush', {'bad': ['C10']}, (CO, '            if (flush_count != 0 && flush_count-- == 1)\n                buf.flush();\n', ''))
E('l-idle-flush-once', {'bad': ['C10']}, (CO, '        // flushing may be late/early if sinks is modified, doesn\'t matter\n        flush_count = sinks_.size();\n', '        if (ts_stale)\n            flush_count = sinks_.size();\n'))
E('l-idle-after-close', {'bad': ['C10']}, (CO, '            // The sink may have logged before it was closed\n            flush_count = sinks_.size();\n', ''))
E('l-idle-size-minus', {'bad': ['C10']}, (CO, 'doesn\'t matter\n        flush_count = sinks_.size();', 'doesn\'t matter\n        flush_count = sinks_.size() - 1;'))
E('l-idle-skips', {'bad': ['C10']}, (CO, 'if (flush_count != 0 && flush_count-- == 1)', 'if (flush_count != 0 && flush_count-- == 1 && n != 0)'))
E('l-dtor-no-flush', {'bad': ['C10']}, (BU, 'xtr::detail::buffer::~buffer()\n{\n    flush();\n}', 'xtr::detail::buffer::~buffer()\n{\n    if (pos_ == end_) flush();\n}'))
E('l-ring-no-drain', {'bad': ['C10']}, (IU, '    flush();\n    sync();\n    ::io_uring_queue_exit(&ring_);', '    flush();\n    ::io_uring_queue_exit(&ring_);'))
E('l-ring-no-submit', {'bad': ['C10']}, (IU, '    flush();\n    sync();\n    ::io_uring_queue_exit(&ring_);', '    sync();\n    ::io_uring_queue_exit(&ring_);'))
E('l-ok-idle-nested', {'ok': LF}, (CO, '            if (flush_count != 0 && flush_count-- == 1)\n                buf.flush();\n', '            if (flush_count > 0)\n            {\n                --flush_count;\n                if (flush_count == 0)\n                    buf.flush();\n            }\n'))
E('l-ok-while-loop', {'ok': LF + ['C01', 'C04']}, (CO, 'for (std::size_t i = 0; !sinks_.empty(); ++i)', 'std::size_t i = std::size_t(-1);\n    while (++i, !sinks_.empty())'))
E('l-ok-size-var', {'ok': LF}, (CO, 'const std::size_t n = i % sinks_.size();', 'const std::size_t count = sinks_.size();\n        const std::size_t n = i % count;'))
# logger thread safety
LC = 'src/logger.cpp'
SINK = 'include/xtr/sink.hpp'
C11 = ['C11']
E('g-post-no-lock', {'bad': C11}, (LGH, '        std::scoped_lock lock{control_mutex_};\n        control_.post(std', '        control_.post(std'))
E('g-style-post-unlocked', {'bad': C11}, (LC, '''    std::scoped_lock lock{control_mutex_};
    control_.post(
        [=](detail''', '''    control_.post(
        [=](detail'''), (LC, '''            c.buf.lstyle = level_style;
        });
''', '''            c.buf.lstyle = level_style;
        });
    std::scoped_lock lock{control_mutex_};
'''))
E('g-path-sync-unlocked', {'bad': C11}, (LC, '''    std::scoped_lock lock{control_mutex_};
    control_.post(
        [s =''', '''    post(
        [s ='''))
E('g-path-no-sync', {'bad': C11}, (LC, '''            c.set_command_path(std::move(s));
        });
    control_.sync();''', '''            c.set_command_path(std::move(s));
        });'''))
E('g-unlock-missing', {'bad': C11}, (LC, '''    // sync also posts to control_, so must be called with the lock held
    std::scoped_lock lock{control_mutex_};''', '''    control_mutex_.lock();'''))
E('g-level-plain', {'bad': C11}, (LGH, 'std::atomic<log_level_t> default_log_level_ =', 'log_level_t default_log_level_ ='))
E('g-sink-mutex', {'bad': C11}, (LC, '''    std::scoped_lock lock{control_mutex_};
    control_.post(
        [=](detail''', '''    static std::mutex style_mutex;
    std::scoped_lock lock{style_mutex};
    control_.post(
        [=](detail'''), (LC, '#include <cassert>', '#include <cassert>\n#include <mutex>'))
E('g-ok-unique', {'ok': C11}, (LC, '''    // sync also posts to control_, so must be called with the lock held
    std::scoped_lock lock{control_mutex_};''', '''    std::unique_lock<std::mutex> lock(control_mutex_);'''))
E('g-ok-guard', {'ok': C11}, (LGH, '        std::scoped_lock lock{control_mutex_};\n        control_.post(std', '        const std::lock_guard<std::mutex> g{control_mutex_};\n        control_.post(std'))
E('g-ok-scope', {'ok': C11}, (LC, '''    assert(!s.open_);
    post(''', '''    assert(!s.open_);
    std::scoped_lock lock{control_mutex_};
    control_.post('''))
# buffers and writes
C12 = ['C12']
E('b-no-reset', {'bad': C12}, (BU, '        // Do not submit the buffer again if allocate_buffer throws\n        pos_ = begin_ = end_ = nullptr;\n', ''))
E('b-flush-no-reset', {'bad': C12}, (BU, '''            pos_ = begin_ = end_ = nullptr;
        }
        if (storage_)''', '''        }
        if (storage_)'''))
E('b-submit-all', {'bad': C12}, (BU, '''        storage_->submit_buffer(begin_, std::size_t(pos_ - begin_));
        // Do''', '''        storage_->submit_buffer(begin_, std::size_t(end_ - begin_) & ~std::size_t(0));
        // Do'''), (BU, 'if (pos_ == end_) [[unlikely]]', 'if (end_ - pos_ < (end_ == begin_ ? 1 : 2)) [[unlikely]]'))
E('b-no-min', {'bad': C12}, (BU, 'const auto n = std::min(last - first, end_ - pos_);', 'const auto n = last - first;'))
E('b-pos-minus', {'bad': C12}, (BU, '        pos_ += n;\n', '        pos_ += n == end_ - pos_ ? n - 1 : n;\n'))
E('b-clear-first', {'bad': C12}, (BU, '    append(line.begin(), line.end());\n    line.clear();', '    const auto b = line.begin(); const auto e = line.end();\n    line.clear();\n    append(b, e);'))
E('b-no-clear', {'bad': C12}, (BU, '    append(line.begin(), line.end());\n    line.clear();', '    append(line.begin(), line.end());'))
E('b-skip-first', {'bad': C12}, (BU, '    append(line.begin(), line.end());', '    append(line.begin() + (line.size() > 65535), line.end());'))
E('b-end-plus', {'bad': C12}, (BU, 'end_ = begin_ + s.size();', 'end_ = begin_ + s.size() + 1;'))
E('b-next-drop', {'bad': C12}, (BU, 'if (pos_ != begin_) [[likely]]', 'if (pos_ != begin_ && pos_ - begin_ > 1) [[likely]]'))
E('b-write-once', {'bad': C12}, (PX, '    while (size > 0)\n    {', '    if (size > 0)\n    {'))
E('b-write-same', {'bad': C12}, (PX, '        buf += std::size_t(nwritten);\n', ''))
E('b-write-swallow', {'bad': C12}, (PX, '''        if (nwritten == -1)
        {''', '''        if (nwritten == -1)
        {
            if (errno == ENOSPC)
                return;'''))
E('b-write-page', {'bad': C12}, (PX, '        size -= std::size_t(nwritten);\n        buf', '        size -= std::size_t(nwritten);\n        size &= ~std::size_t(nwritten == 0);\n        buf'), (PX, '        if (nwritten == -1)', '        if (nwritten == 0) break;\n        if (nwritten == -1)'))
E('b-write-eintr', {'bad': C12}, (PX, 'XTR_TEMP_FAILURE_RETRY(::write(fd_.get(), buf, size))', '::write(fd_.get(), buf, size)'), (PX, '        if (nwritten == -1)\n        {', '        if (nwritten == -1)\n        {\n            if (errno == EINTR) break;'))
E('b-ok-for', {'ok': C12}, (PX, '    while (size > 0)\n    {', '    for (; size != 0;)\n    {'))
E('b-ok-end', {'ok': C12}, (PX, '''    while (size > 0)
    {
        const ::ssize_t nwritten =
            XTR_TEMP_FAILURE_RETRY(::write(fd_.get(), buf, size));''', '''    const char* const end = buf + size;
    while (buf != end)
    {
        const ::ssize_t nwritten =
            XTR_TEMP_FAILURE_RETRY(::write(fd_.get(), buf, std::size_t(end - buf)));'''), (PX, '        size -= std::size_t(nwritten);\n        buf', '        buf'))
E('b-ok-eintr-loop', {'ok': C12}, (PX, 'XTR_TEMP_FAILURE_RETRY(::write(fd_.get(), buf, size))', '::write(fd_.get(), buf, size)'), (PX, '        if (nwritten == -1)\n        {', '        if (nwritten == -1)\n        {\n            if (errno == EINTR) continue;'))
E('b-ok-helper', {'ok': C12 + LF}, (BU, '        storage_->submit_buffer(begin_, std::size_t(pos_ - begin_));\n        // Do not submit the buffer again if allocate_buffer throws\n        pos_ = begin_ = end_ = nullptr;\n    }\n    const', '        const auto used = std::size_t(pos_ - begin_);\n        char* const first = begin_;\n        storage_->submit_buffer(first, used);\n        begin_ = nullptr; end_ = nullptr; pos_ = nullptr;\n    }\n    const'))
E('b-ok-append-for', {'ok': C12}, (BU, '''    while (first != last)
    {
        if (pos_ == end_) [[unlikely]]
            next_buffer();

        const auto n = std::min(last - first, end_ - pos_);
''', '''    for (; first != last;)
    {
        if (end_ == pos_)
            next_buffer();

        auto n = last - first;
        if (end_ - pos_ < n)
            n = end_ - pos_;
'''))
E('b-ok-index', {'ok': C12}, (BU, '    append(line.begin(), line.end());\n', '''    for (std::size_t done = 0; done < line.size();)
    {
        if (pos_ == end_)
            next_buffer();
        const std::size_t n = std::min(line.size() - done, std::size_t(end_ - pos_));
        std::memcpy(pos_, line.data() + done, n);
        pos_ += n;
        done += n;
    }
'''))
E('b-write-no-retry', {'bad': C12}, (PX, 'XTR_TEMP_FAILURE_RETRY(::write(fd_.get(), buf, size))', '::write(fd_.get(), buf, size)'))

IB = 'src/fd_storage_base.cpp'
FS = 'src/fd_storage.cpp'
C13 = ['C13']
C14 = ['C14']
E('i-no-inc', {'bad': C13}, (IU, """    offset_ += size;
    ++pending_cqe_count_;
""", """    offset_ += size;
    if (size != buffer_capacity_)
        ++pending_cqe_count_;
"""))
E('i-no-inc-close', {'bad': C13}, (IU, """    sqe->flags |= IOSQE_IO_DRAIN;
    ++pending_cqe_count_;
""", """    sqe->flags |= IOSQE_IO_DRAIN;
"""))
E('i-no-inc-resubmit', {'bad': C13}, (IU, """    ++pending_cqe_count_;

    io_uring_submit_func_(&ring_);
}

XTR_FUNC
void xtr::io_uring_fd_storage::free_buffer""", """    io_uring_submit_func_(&ring_);
}

XTR_FUNC
void xtr::io_uring_fd_storage::free_buffer"""))
E('i-dec-late', {'bad': C13}, (IU, """    --pending_cqe_count_;

    const int res""", """    const int res"""), (IU, """    ::io_uring_cqe_seen(&ring_, cqe);
""", """    ::io_uring_cqe_seen(&ring_, cqe);
    if (buf)
        --pending_cqe_count_;
"""))
E('i-read-after-seen', {'bad': C13}, (IU, """    const int res = cqe->res;
""", ""), (IU, """    ::io_uring_cqe_seen(&ring_, cqe);
""", """    ::io_uring_cqe_seen(&ring_, cqe);
    const int res = cqe->res;
"""))
E('i-not-seen', {'bad': C13}, (IU, """    ::io_uring_cqe_seen(&ring_, cqe);
""", """    if (buf)
        ::io_uring_cqe_seen(&ring_, cqe);
"""))
E('i-seen-twice', {'bad': C13}, (IU, """    if (!buf) // close""", """    if (res < 0)
        ::io_uring_cqe_seen(&ring_, cqe);
    if (!buf) // close"""))
E('i-short-get', {'bad': C13}, (IU, """        resubmit_buffer(buf.release(), nwritten);
""", """        resubmit_buffer(buf.get(), nwritten);
"""))
E('i-eagain-get', {'bad': C13}, (IU, """        resubmit_buffer(buf.release(), 0);
""", """        resubmit_buffer(buf.get(), 0);
"""))
E('i-err-leak', {'bad': C13}, (IU, """            fd_.get(),
            std::strerror(-res));
        return;""", """            fd_.get(),
            std::strerror(-res));
        buf.release();
        return;"""))
E('i-free-twice', {'bad': C13}, (IU, """            fd_.get(),
            std::strerror(-res));
        return;""", """            fd_.get(),
            std::strerror(-res));
        free_buffer(buf.get());
        return;"""))
E('i-no-size', {'bad': C13}, (IU, """    buf->size_ -= nwritten;
""", ""))
E('i-no-offset', {'bad': C13}, (IU, """    buf->offset_ += nwritten;
""", ""))
E('i-set-offset', {'bad': C13}, (IU, """    buf->offset_ += nwritten;
""", """    buf->offset_ = nwritten;
"""))
E('i-no-foffset', {'bad': C13}, (IU, """    buf->file_offset_ += nwritten;
""", ""))
E('i-no-resubmit', {'bad': C13}, (IU, """    ++pending_cqe_count_;

    io_uring_submit_func_(&ring_);
}

XTR_FUNC
void xtr::io_uring_fd_storage::free_buffer""", """    ++pending_cqe_count_;
}

XTR_FUNC
void xtr::io_uring_fd_storage::free_buffer"""))
E('i-resubmit-base', {'bad': C13}, (IU, """        buf->data_ + buf->offset_,
""", """        buf->data_,
"""))
E('i-resubmit-nodata', {'bad': C13}, (IU, """    ::io_uring_sqe_set_data(sqe, buf);

    ++pending_cqe_count_;

    io_uring_submit_func_(&ring_);
}""", """    ++pending_cqe_count_;

    io_uring_submit_func_(&ring_);
}"""))
E('i-close-nodata', {'bad': C13}, (IU, """    ::io_uring_sqe_set_data(sqe, nullptr);
""", ""))
E('i-no-drain', {'bad': C13 + C14}, (IU, """    sqe->flags |= IOSQE_IO_DRAIN;
""", ""))
E('i-link', {'bad': C13 + C14}, (IU, 'sqe->flags |= IOSQE_IO_DRAIN;', 'sqe->flags |= IOSQE_IO_LINK;'))
E('i-close-nosubmit', {'bad': C14}, (IU, """    sqe->flags |= IOSQE_IO_DRAIN;
    ++pending_cqe_count_;
    io_uring_submit_func_(&ring_);
""", """    sqe->flags |= IOSQE_IO_DRAIN;
    ++pending_cqe_count_;
"""))
E('i-offset-late', {'bad': C13}, (IU, """    offset_ += size;
    ++pending""", """    ++pending"""), (IU, """    buf->file_offset_ = offset_;
""", """    buf->file_offset_ = offset_;
    offset_ += buffer_capacity_;
"""))
E('i-offset-none', {'bad': C13}, (IU, """    offset_ += size;
    ++pending""", """    ++pending"""))
E('i-offset-stale', {'bad': C13}, (IU, """    buf->offset_ = 0;
""", ""))
E('i-free-lost', {'bad': C13}, (IU, """    buf->next_ = free_list_;
    free_list_ = buf;
""", """    free_list_ = buf;
"""))
E('i-free-keep', {'bad': C13}, (IU, """    free_list_ = free_list_->next_;
""", """    if (free_list_->next_ != nullptr)
        free_list_ = free_list_->next_;
"""))
E('i-size-zero', {'bad': C13}, (IU, """    buf->size_ = unsigned(size);
""", """    buf->size_ = unsigned(size) & 0xffff;
"""))
E('i-wrong-retry', {'bad': C13}, (IU, """    if (res == -EAGAIN) [[unlikely]]
    {
        resubmit_buffer(buf.release(), 0);
        goto retry;
    }
""", """    if (res == -EAGAIN) [[unlikely]]
    {
        buf.release();
        goto retry;
    }
"""))
E('i-short-ignored', {'bad': C13}, (IU, 'if (nwritten != buf->size_) [[unlikely]]', 'if (nwritten == 0) [[unlikely]]'))
E('i-ok-return', {'ok': C13 + C14}, (IU, """        resubmit_buffer(buf.release(), nwritten);
        goto retry;""", """        resubmit_buffer(buf.release(), nwritten);
        return;"""))
E('i-ok-else', {'ok': C13 + C14}, (IU, """    if (res == -EAGAIN) [[unlikely]]
    {
        resubmit_buffer(buf.release(), 0);
        goto retry;
    }

    if (res < 0) [[unlikely]]""", """    if (res == -EAGAIN || res == -EINTR) [[unlikely]]
    {
        buffer* const again = buf.release();
        resubmit_buffer(again, 0U);
        goto retry;
    }

    if (res <= -1) [[unlikely]]"""))
E('i-ok-raw', {'ok': C13 + C14}, (IU, """    auto deleter = [this](buffer* ptr) { free_buffer(ptr); };

    std::unique_ptr<buffer, decltype(deleter)> buf(
        static_cast<buffer*>(::io_uring_cqe_get_data(cqe)),
        std::move(deleter));
""", """    buffer* const buf = static_cast<buffer*>(::io_uring_cqe_get_data(cqe));
"""), (IU, 'resubmit_buffer(buf.release(), 0)', 'resubmit_buffer(buf, 0)'), (IU, 'resubmit_buffer(buf.release(), nwritten);\n        goto retry;\n    }', 'resubmit_buffer(buf, nwritten);\n        goto retry;\n    }\n    free_buffer(buf);'),
  (IU, """            fd_.get(),
            std::strerror(-res));
        return;""", """            fd_.get(),
            std::strerror(-res));
        free_buffer(buf);
        return;"""))
E('i-ok-order', {'ok': C13 + C14}, (IU, """    buf->size_ -= nwritten;
    buf->offset_ += nwritten;
    buf->file_offset_ += nwritten;
""", """    buf->file_offset_ = buf->file_offset_ + nwritten;
    buf->offset_ += nwritten;
    buf->size_ = buf->size_ - nwritten;
"""), (IU, """    ++pending_cqe_count_;

    io_uring_submit_func_(&ring_);
}

XTR_FUNC
void xtr::io_uring_fd_storage::free_buffer""", """    io_uring_submit_func_(&ring_);
    ++pending_cqe_count_;
}

XTR_FUNC
void xtr::io_uring_fd_storage::free_buffer"""))
E('i-ok-sync-do', {'ok': C13 + C14}, (IU, """    while (pending_cqe_count_ > 0)
        wait_for_one_cqe();
    fd""", """    for (;;)
    {
        if (pending_cqe_count_ == 0)
            break;
        wait_for_one_cqe();
    }
    fd"""))
E('i-ok-batch', {'ok': C13}, (IU, """    if (++batch_index_ % batch_size_ == 0)
        io_uring_submit_func_(&ring_);""", """    ++batch_index_;
    const bool full = batch_index_ % batch_size_ == 0;
    if (full)
        flush();"""))
E('i-ok-alloc', {'ok': C13}, (IU, """    buffer* buf = free_list_;
    free_list_ = free_list_->next_;

    buf->size_ = 0;
    buf->offset_ = 0;
    buf->file_offset_ = offset_;
""", """    buffer* const buf = std::exchange(free_list_, free_list_->next_);
    buf->file_offset_ = offset_;
    buf->offset_ = 0;
    buf->size_ = 0;
"""))
E('i-ok-submit', {'ok': C13}, (IU, """    ::io_uring_sqe_set_data(sqe, buf);

    offset_ += size;
    ++pending_cqe_count_;
""", """    ++pending_cqe_count_;
    offset_ = offset_ + buf->size_;
    ::io_uring_sqe_set_data(sqe, buf);
"""))
E('r-no-flush', {'bad': C14}, (CO, """    buf.flush();
    if (const int errnum""", """    if (const int errnum"""))
E('r-flush-storage', {'bad': C14}, (CO, """    buf.flush();
    if (const int errnum""", """    buf.storage().flush();
    if (const int errnum"""))
E('r-reply-swapped', {'bad': C14}, (CO, """    if (const int errnum = buf.storage().reopen())
        cmds""", """    if (const int errnum = buf.storage().reopen(); errnum > 2)
        cmds"""))
E('r-no-reply', {'bad': C14}, (CO, """        cmds_->send_error(fd, std::strerror(errnum));
    else
""", """        return;
    else
"""))
E('r-trunc', {'bad': C14}, (IB, 'O_CREAT|O_APPEND|O_WRONLY', 'O_CREAT|O_TRUNC|O_APPEND|O_WRONLY'))
E('r-no-append', {'bad': C14}, (IB, 'O_CREAT|O_APPEND|O_WRONLY', 'O_CREAT|O_WRONLY'))
E('r-no-creat', {'bad': C14}, (IB, 'O_CREAT|O_APPEND|O_WRONLY', 'O_APPEND|O_WRONLY'))
E('r-close-first', {'bad': C14}, (IB, """    const int newfd =
        XTR""", """    fd_.reset();
    const int newfd =
        XTR"""))
E('r-no-retry', {'bad': C14}, (IB, """        XTR_TEMP_FAILURE_RETRY(
            ::open(
                reopen_path_.c_str(),
                O_CREAT|O_APPEND|O_WRONLY,
                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH));""", """            ::open(
                reopen_path_.c_str(),
                O_CREAT|O_APPEND|O_WRONLY,
                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH);"""))
E('r-return0', {'bad': C14}, (IB, """    if (newfd == -1)
        return errno;
""", """    if (newfd == -1)
        return errno == ENOENT ? 0 : errno;
"""))
E('r-null-path', {'bad': C14}, (IB, """    if (reopen_path_ == null_reopen_path)
        return ENOENT;
""", """    if (reopen_path_ == null_reopen_path)
        return 0;
"""))
E('r-replace-fail', {'bad': C14}, (IB, """    if (newfd == -1)
        return errno;

    replace_fd(newfd);
""", """    const int errnum = errno;
    replace_fd(newfd);
    if (newfd == -1)
        return errnum;
"""))
E('r-leak-old', {'bad': C14}, (IB, """    fd_.reset(newfd);""", """    fd_.release();
    fd_.reset(newfd);"""))
E('r-direct-close', {'bad': C14}, (IU, """    io_uring_sqe* sqe = get_sqe();
    ::io_uring_prep_close(sqe, fd_.release());
    // The submission queue entry may have been used before, in which case it
    // still refers to the buffer of an earlier write.
    ::io_uring_sqe_set_data(sqe, nullptr);
    sqe->flags |= IOSQE_IO_DRAIN;
    ++pending_cqe_count_;
    io_uring_submit_func_(&ring_);
""", """    while (pending_cqe_count_ > 1)
        wait_for_one_cqe();
"""))
E('r-move', {'bad': C14}, (FS, 'return std::make_unique<io_uring_fd_storage>(fd, reopen_path);', 'return std::make_unique<io_uring_fd_storage>(fd, std::move(reopen_path));'))
E('r-fallback-null', {'bad': C14}, (FS, 'return std::make_unique<posix_fd_storage>(fd, std::move(reopen_path));', 'return std::make_unique<posix_fd_storage>(fd);'))
E('r-no-dup', {'bad': C14}, (IB, 'fd_(::dup(fd))', 'fd_(fd)'))
E('r-ok-reply', {'ok': C14}, (CO, """    if (const int errnum = buf.storage().reopen())
        cmds_->send_error(fd, std::strerror(errnum));
    else
        cmds_->send(fd, detail::frame<detail::success>());
""", """    auto& st = buf.storage();
    const int rc = st.reopen();
    if (rc == 0)
    {
        detail::frame<detail::success> ok;
        cmds_->send(fd, ok);
        return;
    }
    const char* const why = std::strerror(rc);
    cmds_->send_error(fd, why);
"""))
E('r-ok-loop', {'ok': C14}, (IB, """    const int newfd =
        XTR_TEMP_FAILURE_RETRY(
            ::open(
                reopen_path_.c_str(),
                O_CREAT|O_APPEND|O_WRONLY,
                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH));

    if (newfd == -1)
        return errno;
""", """    int newfd;
    do
    {
        newfd = ::open(reopen_path_.c_str(), O_WRONLY|O_APPEND|O_CREAT|O_CLOEXEC, 0666);
    }
    while (newfd < 0 && errno == EINTR);

    if (newfd < 0)
    {
        const int e = errno;
        return e;
    }
"""))
E('r-ok-release', {'ok': C14}, (IB, """    fd_.reset(newfd);""", """    const int old = fd_.release();
    fd_.reset(newfd);
    if (old != -1)
        ::close(old);"""))
E('r-ok-make', {'ok': C14}, (FS, """            // reopen_path is copied as it is needed again if this fails
            return std::make_unique<io_uring_fd_storage>(fd, reopen_path);""", """            std::string copy = reopen_path;
            auto ptr = std::make_unique<io_uring_fd_storage>(fd, std::move(copy));
            return ptr;"""))
E('r-ok-ctor', {'ok': C14}, (IB, """    if (!fd_)
    {
        detail::throw_system""", """    const bool failed = fd_.get() == -1;
    if (failed)
    {
        detail::throw_system"""))

# ---- C15 commands, C16 replies and connections
C15, C16 = ['C15'], ['C16']
CDC = 'src/command_dispatcher.cpp'
CDH = 'include/xtr/detail/commands/command_dispatcher.hpp'
SZC = 'include/xtr/detail/strzcpy.hpp'
SND = 'include/xtr/detail/commands/send.hpp'
RCV = 'include/xtr/detail/commands/recv.hpp'
LENCHK = """    if (nbytes != ::ssize_t(cpos->second.size))
"""
TAIL = "    st.pattern.text[sizeof(st.pattern.text) - 1] = '\\0';\n"
STAIL = "    sl.pattern.text[sizeof(sl.pattern.text) - 1] = '\\0';\n"
LOOP = """    for (std::size_t i = 1; i < sinks_.size(); ++i)
    {
        auto& s = sinks_[i];

        if (!(*matcher)(s.name.c_str()))
            continue;

"""
E('d-len-gt', {'bad': C15}, (CDC, LENCHK, """    if (nbytes > ::ssize_t(cpos->second.size))
"""))
E('d-len-lt', {'bad': C15}, (CDC, LENCHK, """    if (nbytes < ::ssize_t(cpos->second.size))
"""))
E('d-len-none', {'bad': C15}, (CDC, LENCHK, """    if (nbytes == 0)
"""))
E('d-hdr', {'bad': C15}, (CDC, """    if (nbytes < ::ssize_t(sizeof(frame_header)))
""", """    if (nbytes < 2)
"""))
E('d-noend', {'bad': C15}, (CDC, """        send_error(fd, "Invalid frame id");
        return;
""", """        send_error(fd, "Invalid frame id");
        if (callbacks_.empty())
            return;
"""))
E('d-noerr', {'bad': C15}, (CDC, """        send_error(fd, "Invalid frame id");
        return;
""", """        return;
"""))
E('d-nopollout', {'bad': C15}, (CDC, """    pfd.events = POLLOUT;

    if (nbytes == -1)
    {
        err("Error: Failed to read command");
        return;
    }

    if (nbytes == 0) // EOF
        return;
""", """    if (nbytes == -1)
    {
        err("Error: Failed to read command");
        return;
    }

    pfd.events = POLLOUT;

    if (nbytes == 0) // EOF
        return;
"""))
E('d-catch-silent', {'bad': C15}, (CDC, """        send_error(fd, e.what());
""", """        static_cast<void>(e);
"""))
E('d-recv-size', {'bad': C15}, (RCV, 'iov.iov_len = sizeof(buf);', 'iov.iov_len = sizeof(buf) + 8;'))
E('d-status-nonul', {'bad': C15}, (CO, TAIL, ''))
E('d-level-nonul', {'bad': C15}, (CO, STAIL, ''))
E('d-nul-past', {'bad': C15}, (CO, TAIL, "    st.pattern.text[sizeof(st.pattern.text)] = '\\0';\n"))
E('d-level-upper', {'bad': C15}, (CO, 'sl.level < xtr::log_level_t::none || ', ''))
E('d-level-lower', {'bad': C15}, (CO, ' || sl.level > xtr::log_level_t::debug', ''))
E('d-level-none', {'bad': C15}, (CO, 'sl.level < xtr::log_level_t::none ||', 'sl.level <= xtr::log_level_t::none ||'))
E('d-valid', {'bad': C15}, (CO, """        matcher->error_reason(ef->reason, sizeof(ef->reason));
        cmds_->send(fd, ef);
        return;
    }

    for (std::size_t i = 1; i < sinks_.size(); ++i)
    {
        auto& s = sinks_[i];

        if (!(*matcher)(s.name.c_str()))
            continue;

        s->set""", """        matcher->error_reason(ef->reason, sizeof(ef->reason));
        cmds_->send(fd, ef);
    }

    for (std::size_t i = 1; i < sinks_.size(); ++i)
    {
        auto& s = sinks_[i];

        if (!(*matcher)(s.name.c_str()))
            continue;

        s->set"""))
E('d-loop-from0', {'bad': C15}, (CO, LOOP, LOOP.replace('i = 1', 'i = 0')))
E('d-loop-from2', {'bad': C15}, (CO, LOOP, LOOP.replace('i = 1', 'i = 2')))
E('d-loop-short', {'bad': C15}, (CO, LOOP, LOOP.replace('i < sinks_.size()', 'i + 1 < sinks_.size()')))
E('d-loop-le', {'bad': C15}, (CO, LOOP, LOOP.replace('i < sinks_.size()', 'i <= sinks_.size()')))
E('d-match-break', {'bad': C15}, (CO, LOOP, LOOP.replace('continue;', 'break;')))
E('d-match-inv', {'bad': C15}, (CO, LOOP, LOOP.replace('if (!(*', 'if ((*')))
E('d-cap', {'bad': C15}, (CO, 'sif->buf_capacity = s->buf_.capacity();', 'sif->buf_capacity = s->buf_.read_span().size();'))
E('d-nbytes', {'bad': C15}, (CO, 'sif->buf_nbytes = s->buf_.read_span().size();', 'sif->buf_nbytes = s->buf_.capacity();'))
E('d-dropped', {'bad': C15}, (CO, '        sif->dropped_count = s.dropped_count;\n', '        sif->dropped_count = s->buf_.dropped_count();\n'))
E('d-name0', {'bad': C15}, (CO, 'detail::strzcpy(sif->name, s.name);', 'detail::strzcpy(sif->name, sinks_[0].name);'))
E('d-setlevel-one', {'bad': C15}, (CO, '        s->set_level(sl.level);\n', '        s->set_level(sl.level);\n        break;\n'))
E('d-success-early', {'bad': C15}, (CO, '        s->set_level(sl.level);\n', '        s->set_level(sl.level);\n        cmds_->send(fd, detail::frame<detail::success>());\n'))
E('d-success-none', {'bad': C15}, (CO, """        s->set_level(sl.level);
    }

    cmds_->send(fd, detail::frame<detail::success>());
""", """        s->set_level(sl.level);
    }
"""))
E('d-strzcpy', {'bad': C15}, (SZC, 'std::min(DstSz - 1, std::size(src))', 'std::min(DstSz, std::size(src))'))
E('d-strzcpy-nonul', {'bad': C15}, (SZC, "        dst[n] = '\\0';\n", "        if (n > 0)\n            dst[n] = '\\0';\n"))
E('d-strzcpy-short', {'bad': C15}, (SZC, 'std::min(DstSz - 1, std::size(src))', 'std::min(DstSz - 8, std::size(src))'))
E('d-ok-iter', {'ok': C15}, (CO, LOOP, """    for (auto it = sinks_.begin() + 1; it != sinks_.end(); ++it)
    {
        auto& s = *it;

        if (!(*matcher)(s.name.c_str()))
            continue;

"""))
E('d-ok-nested', {'ok': C15}, (CO, """        if (!(*matcher)(s.name.c_str()))
            continue;

        s->set_level(sl.level);
""", """        const bool matches = (*matcher)(s.name.c_str());

        if (matches)
        {
            const auto level = sl.level;
            s->set_level(level);
        }
"""))
E('d-ok-order', {'ok': C15}, (CO, """        sif->level = s->level();
        sif->buf_capacity = s->buf_.capacity();
        sif->buf_nbytes = s->buf_.read_span().size();
        sif->dropped_count = s.dropped_count;
        detail::strzcpy(sif->name, s.name);
""", """        detail::strzcpy(sif->name, s.name);
        sif->dropped_count = s.dropped_count;
        sif->buf_nbytes = s->buf_.read_span().size();
        sif->buf_capacity = s->buf_.capacity();
        sif->level = s->level();
"""))
E('d-ok-level-helper', {'ok': C15}, (CO, """    if (sl.level < xtr::log_level_t::none || sl.level > xtr::log_level_t::debug)
    {""", """    const bool level_ok =
        sl.level >= xtr::log_level_t::none && sl.level <= xtr::log_level_t::debug;
    if (!level_ok)
    {"""))
E('d-ok-len', {'ok': C15}, (CDC, LENCHK, """    const std::size_t want = cpos->second.size;
    if (std::size_t(nbytes) != want)
"""))
E('d-ok-else', {'ok': C15}, (CDC, """    if (nbytes == -1)
    {
        err("Error: Failed to read command");
        return;
    }

    if (nbytes == 0) // EOF
        return;
""", """    if (nbytes <= 0)
    {
        if (nbytes < 0)
            err("Error: Failed to read command");
        return;
    }
"""))
E('d-ok-strzcpy', {'ok': C15}, (SZC, """        const std::size_t n = std::min(DstSz - 1, std::size(src));
        std::memcpy(dst, &src[0], n);
        dst[n] = '\\0';
""", """        std::size_t n = std::size(src);
        if (n >= DstSz)
            n = DstSz - 1;
        dst[n] = '\\0';
        std::memcpy(dst, src.data(), n);
"""))
E('d-ok-send', {'ok': C15}, (CO, """    cmds_->send(fd, detail::frame<detail::success>());
}

XTR_FUNC
void xtr::detail::consumer::reopen_handler""", """    const detail::frame<detail::success> reply;
    cmds_->send(fd, &reply, sizeof(reply));
}

XTR_FUNC
void xtr::detail::consumer::reopen_handler"""))
WLOOP = """    for (; cr.pos < cr.bufs.size(); ++cr.pos)
    {
        nwritten =
            command_send(fd, cr.bufs[cr.pos].buf.get(), cr.bufs[cr.pos].size);
        if (nwritten != ::ssize_t(cr.bufs[cr.pos].size))
            break;
    }

    if ((nwritten == -1 && errno != EAGAIN) || cr.pos == cr.bufs.size())
"""
E('w-le', {'bad': C16}, (CDC, 'cr.pos < cr.bufs.size()', 'cr.pos <= cr.bufs.size()'))
E('w-short', {'bad': C16}, (CDC, """        if (nwritten != ::ssize_t(cr.bufs[cr.pos].size))
            break;
""", """        if (nwritten == -1)
            break;
"""))
E('w-nobreak', {'bad': C16}, (CDC, """        if (nwritten != ::ssize_t(cr.bufs[cr.pos].size))
            break;
""", """        if (nwritten == 0)
            break;
"""))
E('w-again', {'bad': C16}, (CDC, '(nwritten == -1 && errno != EAGAIN)', '(nwritten == -1)'))
E('w-noerr', {'bad': C16}, (CDC, '(nwritten == -1 && errno != EAGAIN) || cr.pos', 'cr.pos'))
E('w-pipe', {'bad': C16}, (CDC, 'errno != EAGAIN) || cr.pos', 'errno == EPIPE) || cr.pos'))
E('w-size', {'bad': C16}, (CDC, 'command_send(fd, cr.bufs[cr.pos].buf.get(), cr.bufs[cr.pos].size);', 'command_send(fd, cr.bufs[cr.pos].buf.get(), cr.bufs[0].size);'))
E('w-noerase', {'bad': C16}, (CDC, """        results_.erase(fd);
        disconnect(pfd);
""", """        disconnect(pfd);
"""))
E('w-noswap', {'bad': C16}, (CDC, """    std::swap(pfd, pollfds_.back());
    pollfds_.pop_back();
""", """    assert(&pfd == &pollfds_.back());
    pollfds_.pop_back();
"""))
E('w-uaf', {'bad': C16}, (CDC, """        results_.erase(fd);
        disconnect(pfd);
""", """        results_.erase(fd);
        if (cr.pos > 0 || nwritten == -1)
            disconnect(pfd);
"""))
E('w-sigpipe', {'bad': C16}, (SND, 'MSG_NOSIGNAL', '0'))
E('w-dontwait', {'ok': C16}, (SND, 'MSG_NOSIGNAL', 'MSG_NOSIGNAL|MSG_DONTWAIT'))
E('w-copy-size', {'bad': C16}, (CDC, 'buf(new char[srcsize])', 'buf(new char[srcsize / 2 + 64])'))
E('w-copy-ptr', {'bad': C16}, (CDC, 'std::memcpy(buf.get(), srcbuf, size);', 'std::memcpy(buf.get(), srcbuf, size - 1);'))
E('p-past-end', {'bad': C16}, (CDC, 'if (i == pollfds_.size() || fd != pollfds_[i].fd.get())', 'if (fd != pollfds_[i].fd.get())'))
E('p-le', {'bad': C16}, (CDC, 'i < pollfds_.size() && nfds > 0', 'i <= pollfds_.size() && nfds > 0'))
E('p-size', {'bad': C16}, (CDC, '::nfds_t(pollfds_.size()),', '::nfds_t(pollfds_.size() + 1),'))
E('p-timeout', {'bad': C16}, (CDC, """            timeout);

    if""", """            timeout + 10);

    if"""))
E('p-run-timeout', {'bad': C16}, (CO, 'process_commands(/* timeout= */0)', 'process_commands(/* timeout= */-1)'))
E('p-accept-block', {'bad': C16}, (CDC, 'nullptr, nullptr, SOCK_NONBLOCK));', 'nullptr, nullptr, 0));'))
E('p-listen-block', {'bad': C16}, (CDC, 'SOCK_SEQPACKET|SOCK_NONBLOCK', 'SOCK_SEQPACKET'))
E('p-stream', {'bad': C16}, (CDC, 'SOCK_SEQPACKET|SOCK_NONBLOCK', 'SOCK_STREAM|SOCK_NONBLOCK'))
E('w-ok-while', {'ok': C16}, (CDC, WLOOP, """    bool failed = false;

    while (cr.pos < cr.bufs.size())
    {
        const buffer& b = cr.bufs[cr.pos];
        nwritten = command_send(fd, b.buf.get(), b.size);
        if (nwritten != ::ssize_t(b.size))
        {
            failed = nwritten == -1 && errno != EAGAIN;
            break;
        }
        ++cr.pos;
    }

    if (failed || cr.pos == cr.bufs.size())
"""))
E('w-ok-back', {'ok': C16}, (CDC, """    std::swap(pfd, pollfds_.back());
    pollfds_.pop_back();
""", """    pollfd& last = pollfds_.back();
    using std::swap;
    swap(last, pfd);
    pollfds_.pop_back();
"""))
E('p-ok-data', {'ok': C16}, (CDC, """            reinterpret_cast<::pollfd*>(&pollfds_[0]),
            ::nfds_t(pollfds_.size()),""", """            reinterpret_cast<::pollfd*>(pollfds_.data()),
            static_cast<::nfds_t>(pollfds_.size()),"""))
E('p-ok-ref', {'ok': C16}, (CDC, """        const int fd = pollfds_[i].fd.get();
        if ((pollfds_[i].revents & POLLOUT) != 0)
        {
            process_socket_write(pollfds_[i]);
            --nfds;
        }
        else if ((pollfds_[i].revents & (POLLHUP|POLLIN)) != 0)
        {
            process_socket_read(pollfds_[i]);
            --nfds;
        }
""", """        pollfd& pfd = pollfds_[i];
        const int fd = pfd.fd.get();
        const auto revents = pfd.revents;
        if ((revents & POLLOUT) != 0)
        {
            process_socket_write(pfd);
            --nfds;
        }
        else if ((revents & (POLLHUP|POLLIN)) != 0)
        {
            process_socket_read(pfd);
            --nfds;
        }
"""))
E('p-ok-split', {'ok': C16}, (CDC, """        if (i == pollfds_.size() || fd != pollfds_[i].fd.get())
            --i; // Adjust for erased item
""", """        const bool erased =
            i >= pollfds_.size() || pollfds_[i].fd.get() != fd;
        if (erased)
            i -= 1;
"""))
E('p-ok-whilei', {'ok': C16}, (CDC, """    for (std::size_t i = 1; i < pollfds_.size() && nfds > 0; ++i)
    {""", """    std::size_t i = 1;
    while (i < pollfds_.size() && nfds > 0)
    {"""), (CDC, """        if (i == pollfds_.size() || fd != pollfds_[i].fd.get())
            --i; // Adjust for erased item
""", """        if (i < pollfds_.size() && fd == pollfds_[i].fd.get())
            ++i; // Otherwise the item was erased
"""))
E('w-swapfd', {'bad': C16}, (CDC, """    std::swap(pfd, pollfds_.back());
""", """    std::swap(pfd.fd, pollfds_.back().fd);
"""))
E('w-lost', {'bad': C16}, (CDC, """    std::swap(pfd, pollfds_.back());
""", """    pollfds_.back() = std::move(pfd);
"""))
E('w-ok-if', {'ok': C16}, (CDC, """    std::swap(pfd, pollfds_.back());
""", """    if (&pfd != &pollfds_.back())
        std::swap(pfd, pollfds_.back());
"""))
E('w-ok-move', {'ok': C16}, (CDC, """    std::swap(pfd, pollfds_.back());
""", """    if (&pfd != &pollfds_.back())
    {
        pollfd tmp(std::move(pfd));
        pfd = std::move(pollfds_.back());
        pollfds_.back() = std::move(tmp);
    }
"""))

# ---- resources
C17 = ['C17']
FDH = 'include/xtr/detail/file_descriptor.hpp'
FDC = 'src/file_descriptor.cpp'
FSC = 'src/fd_storage.cpp'
RM = 'src/regex_matcher.cpp'
E('d-move-keeps', {'bad': C17}, (FDH, """        other.release();
""", ""))
E('d-release-keeps', {'bad': C17}, (FDH, "return std::exchange(fd_, -1);", "return fd_;"))
E('d-assign-drops', {'bad': C17}, (FDC, "    swap(*this, other);\n", "    fd_ = other.release();\n"))
E('d-ok-assign3', {'ok': C17}, (FDC, "    swap(*this, other);\n", "    reset(other.get());\n    other.release();\n"))
E('d-reset-zero', {'bad': C17}, (FDC, "    if (is_open())", "    if (fd_ > 0)"))
E('d-open-zero', {'bad': C17}, (FDH, "return fd_ != -1;", "return fd_ > 0;"))
E('d-reset-stale', {'bad': C17}, (FDC, "    fd_ = fd;", "    if (fd != -1)\n        fd_ = fd;"))
E('d-reset-retry', {'bad': C17}, (FDC, "(void)::close(fd_);", "(void)XTR_TEMP_FAILURE_RETRY(::close(fd_));"))
E('d-storage-leak', {'bad': C17}, (FSC, "    return make_fd_storage(fd.get(), path);", "    return make_fd_storage(const_cast<detail::file_descriptor&>(fd).release(), path);"))
E('d-storage-closes-users', {'bad': C17}, (FSC, """    return make_fd_storage(::fileno(fp), std::move(reopen_path));""", """    auto r = make_fd_storage(::fileno(fp), std::move(reopen_path));
    detail::file_descriptor tmp(::fileno(fp));
    return r;"""))
E('d-uring-guard', {'bad': C17}, (IU, """    std::unique_ptr<::io_uring, void(*)(::io_uring*)> guard(
        &ring_, ::io_uring_queue_exit);
    allocate_buffers(queue_size);
    guard.release();
""", """    allocate_buffers(queue_size);
"""))
E('d-uring-dtor', {'bad': C17}, (IU, """    sync();
    ::io_uring_queue_exit(&ring_);""", """    sync();
    if (pending_cqe_count_ > 0)
        ::io_uring_queue_exit(&ring_);"""))
E('d-replace-leak', {'bad': C17}, (FB, "    fd_.reset(newfd);", "    fd_.release();\n    fd_.reset(newfd);"))
E('d-base-raw', {'bad': C17}, (FB, """        detail::throw_system_error_fmt(
            errno,
            "xtr::detail::fd_storage_base::fd_storage_base: dup(2) failed");
    }
""", """        detail::throw_system_error_fmt(
            errno,
            "xtr::detail::fd_storage_base::fd_storage_base: dup(2) failed");
    }
    if (fd_.get() < 3)
        fd_.reset(::fcntl(fd_.release(), F_DUPFD, 3));
"""))
E('d-listen-leak', {'bad': C17}, (CDC, """        err("Error: Failed to listen on command socket");
        return;""", """        err("Error: Failed to listen on command socket");
        fd.release();
        return;"""))
E('d-accept-leak', {'bad': C17}, (CDC, """        if (fd)
            pollfds_.push_back""", """        if (fd && pollfds_.size() > 64)
            fd.release();
        else if (fd)
            pollfds_.push_back"""))
E('d-regex-dtor', {'bad': C17}, (RM, """    if (valid())
        ::regfree(&regex_);""", """    ::regfree(&regex_);"""))
E('d-regex-never', {'bad': C17}, (RM, """    if (valid())
        ::regfree(&regex_);""", """    if (!valid())
        ::regfree(&regex_);"""))
E('d-ok-assign', {'ok': C17}, (FDC, "    swap(*this, other);\n", "    reset(other.release());\n"))
E('d-ok-assign2', {'ok': C17}, (FDC, "    swap(*this, other);\n", "    if (this != &other)\n    {\n        reset(other.fd_);\n        other.fd_ = -1;\n    }\n"))
E('d-ok-reset', {'ok': C17}, (FDC, """    if (is_open())
        (void)::close(fd_);
    fd_ = fd;""", """    const int old = std::exchange(fd_, fd);
    if (old != -1)
        (void)::close(old);"""))
E('d-ok-storage', {'ok': C17}, (FSC, "const detail::file_descriptor fd(", "detail::file_descriptor fd("), (FSC, """    return make_fd_storage(fd.get(), path);""", """    auto storage = make_fd_storage(fd.get(), path);
    fd.reset();
    return storage;"""))
E('d-ok-guard', {'ok': C17}, (IU, """    std::unique_ptr<::io_uring, void(*)(::io_uring*)> guard(
        &ring_, ::io_uring_queue_exit);
    allocate_buffers(queue_size);
    guard.release();
""", """    try
    {
        allocate_buffers(queue_size);
    }
    catch (...)
    {
        ::io_uring_queue_exit(&ring_);
        throw;
    }
"""))
E('d-ok-accept', {'ok': C17}, (CDC, """        if (fd)
            pollfds_.push_back(pollfd{std::move(fd), POLLIN, 0});
        else
            err(""", """        if (fd)
        {
            pollfd pfd{std::move(fd), POLLIN, 0};
            pollfds_.emplace_back(std::move(pfd));
        }
        else
            err("""))
E('d-ok-ctor', {'ok': C17}, (FB, """    fd_(::dup(fd))
{
    if (!fd_)
    {""", """    fd_(-1)
{
    fd_.reset(::dup(fd));
    if (!fd_.is_open())
    {"""))

# ---- memory of the queue
C18 = ['C18']
MMM = 'src/mirrored_memory_mapping.cpp'
MMF = 'src/memory_mapping.cpp'
MMH = 'include/xtr/detail/memory_mapping.hpp'
E('m-reserve-kept', {'bad': C18}, (MMM, """        reserve.release(); // mapping was destroyed by mremap
        mirror""", """        mirror"""))
E('m-mirror-kept', {'bad': C18}, (MMM, """        mirror.release(); // mirror will be recreated in ~mirrored_memory_mapping
        return;""", """        return;"""))
E('m-private', {'bad': C18}, (MMM, "MAP_FIXED|MAP_SHARED|MAP_ANONYMOUS|flags);", "MAP_FIXED|MAP_PRIVATE|MAP_ANONYMOUS|flags);"))
E('m-notfixed', {'bad': C18}, (MMM, "MAP_FIXED|MAP_SHARED|MAP_ANONYMOUS|flags);", "MAP_SHARED|MAP_ANONYMOUS|flags);"))
E('m-reserve-short', {'bad': C18}, (MMM, "        length * 2,\n        prot,", "        length,\n        prot,"))
E('m-fd-anon', {'bad': C18}, (MMM, "    flags &= ~MAP_ANONYMOUS; // Mappings must be shared\n", "    flags |= MAP_ANONYMOUS;\n"))
E('m-fd-offset', {'bad': C18}, (MMM, "m_ = memory_mapping(reserve.get(), length, prot, flags, fd, offset);", "m_ = memory_mapping(reserve.get(), length, prot, flags, fd, offset + length);"))
E('m-dtor-one', {'bad': C18}, (MMM, """    if (m_)
    {
        memory_mapping{}.reset(""", """    if (m_.length() == 0)
    {
        memory_mapping{}.reset("""))
E('m-dtor-len', {'bad': C18}, (MMM, """            static_cast<std::byte*>(m_.get()) + m_.length(),
            m_.length());""", """            static_cast<std::byte*>(m_.get()) + m_.length(),
            m_.length() * 2);"""))
E('m-move-len', {'bad': C18}, (MMF, """    mem_(other.mem_),
    length_(other.length_)""", """    mem_(other.mem_)"""))
E('m-move-keeps', {'bad': C18}, (MMF, """    other.release();
""", ""))
E('m-swap-len', {'bad': C18}, (MMH, """        swap(a.length_, b.length_);
""", ""))
E('m-reset-noumap', {'bad': C18}, (MMF, "    if (mem_ != MAP_FAILED)\n", "    if (mem_ != MAP_FAILED && addr != MAP_FAILED)\n"))
E('m-ctor-unchecked', {'bad': C18}, (MMF, "    if (mem_ == MAP_FAILED)\n    {", "    if (mem_ == nullptr)\n    {"))
E('m-clear-partial', {'bad': C18}, (RB, """        wrnwritten_ = 0;
        nread_plus_capacity_ = capacity();""", """        wrnwritten_ = 0;"""))
E('m-clear-dropped', {'bad': C18}, (RB, """        dropped_count_ = 0;
    }""", """    }"""))
E('m-noclear', {'bad': C18}, ('src/sink.cpp', "        buf_.clear();\n", ""))
E('m-start-half', {'bad': C18}, (RB, """        m_ = mirrored_memory_mapping{capacity(), fd, offset, flags};""", """        m_ = mirrored_memory_mapping{capacity() / 2, fd, offset, flags};"""))
E('m-ok-dtor', {'ok': C18}, (MMM, """        memory_mapping{}.reset(
            static_cast<std::byte*>(m_.get()) + m_.length(),
            m_.length());""", """        ::munmap(m_.get(), m_.length() * 2);
        m_.release();"""))
E('m-ok-order', {'ok': C18}, (MMM, """        reserve.release(); // mapping was destroyed by mremap
        mirror.release(); // mirror""", """        mirror.release();
        reserve.release(); // mirror"""))
E('m-ok-mirror-early', {'ok': C18}, (MMM, """        m_.reset(
            ::mremap(
                mirror.get(),""", """        void* const mp = mirror.get();
        mirror.release();
        m_.reset(
            ::mremap(
                mp,"""))
E('m-ok-raw', {'ok': C18}, (MMM, """        m_.reset(
            ::mremap(
                mirror.get(),
                0,
                length,
                MREMAP_FIXED|MREMAP_MAYMOVE,
                reserve.get()),
            length);

        if (!m_)
        {""", """        void* const res =
            ::mremap(
                mirror.get(),
                0,
                length,
                MREMAP_FIXED|MREMAP_MAYMOVE,
                reserve.get());
        if (res != MAP_FAILED)
            m_.reset(res, length);
        else
        {"""))
E('m-ok-assign', {'ok': C18}, (MMF, "    swap(*this, other);\n", "    if (this != &other)\n    {\n        reset(other.mem_, other.length_);\n        other.release();\n    }\n"))
E('m-ok-clear', {'ok': C18}, (RB, """        nwritten_ = 0;
        wrnread_plus_capacity_ = capacity();
        wrnwritten_ = 0;
        nread_plus_capacity_ = capacity();""", """        wrnwritten_ = 0;
        nwritten_.store(0, std::memory_order_relaxed);
        nread_plus_capacity_ = wrnread_plus_capacity_ = capacity();"""))

# ---------------------------------------------------------------- C19
C19 = ['C19']
CPT = 'src/command_path.cpp'
E('s-too-long', {'bad': C19}, (CDC, "path.size() > sizeof(addr.sun_path) - 1", "path.size() > sizeof(addr.sun_path)"))
E('s-too-long-none', {'bad': C19}, (CDC, "path.size() > sizeof(addr.sun_path) - 1", "path.size() > 4095"))
E('s-path-before-bind', {'bad': C19}, (CDC, """    if (::bind(fd.get()""", """    path_ = path;
    if (::bind(fd.get()"""))
E('s-path-after-listen', {'bad': C19}, (CDC, """    path_ = std::move(path);

""", ""), (CDC, "    pollfds_.push_back(pollfd{std::move(fd), POLLIN, 0});", "    path_ = std::move(path);\n    pollfds_.push_back(pollfd{std::move(fd), POLLIN, 0});"))
E('s-path-lost', {'bad': C19}, (CDC, "    path_ = std::move(path);\n", ""))
E('s-unlink-first', {'bad': C19}, (CDC, """    if (::bind(fd.get()""", """    ::unlink(path.c_str());
    if (::bind(fd.get()"""))
E('s-listen-ignored', {'bad': C19}, (CDC, """        err("Error: Failed to listen on command socket");
        return;""", """        err("Error: Failed to listen on command socket");"""))
E('s-bind-ignored', {'bad': C19}, (CDC, """        err("Error: Failed to bind command socket to path '", path, "'");
        return;""", """        err("Error: Failed to bind command socket to path '", path, "'");"""))
E('s-no-terminator', {'bad': C19}, (CDC, "path.c_str(), path.size() + 1);", "path.c_str(), path.size());"))
E('s-abstract-tail', {'bad': C19}, (CDC, "            sizeof(addr.sun_path) - path.size());", "            sizeof(addr.sun_path) - path.size() - 1);"))
E('s-abstract-none', {'bad': C19}, (CDC, "if (addr.sun_path[0] == '\\0') // abstract socket", "if (path.empty()) // abstract socket"))
E('s-tail-over', {'bad': C19}, (CDC, "            sizeof(addr.sun_path) - path.size());", "            sizeof(addr) - path.size());"))
E('s-no-unlink', {'bad': C19}, (CDC, "    if (!path_.empty())\n        ::unlink", "    if (path_.size() > 1 && is_open())\n        ::unlink"))
E('s-events', {'bad': C19}, (CDC, "pollfd{std::move(fd), POLLIN, 0}", "pollfd{std::move(fd), POLLOUT, 0}"))
E('s-null', {'bad': C19}, (CO, "    if (path == null_command_path)\n        return;\n", ""))
E('s-null-drops', {'bad': C19}, (CO, "    if (path == null_command_path)\n        return;\n", "    if (path == null_command_path)\n    {\n        cmds_.reset();\n        return;\n    }\n"))
E('s-failed-kept', {'bad': C19}, (CO, "        cmds_.reset();\n        return;", "        return;"))
E('s-failed-leaks', {'bad': C19}, (CO, "        cmds_.reset();\n        return;", "        (void)cmds_.release();\n        return;"))
E('s-cmd-missing', {'bad': C19}, (CO, """    cmds_->register_callback<detail::reopen>(
        std::bind_front(&consumer::reopen_handler, this));
""", ""))
E('s-counter-plain', {'bad': C19}, (CPT, "static std::atomic<unsigned> ctl_count{0};", "static unsigned ctl_count = 0;"))
E('s-counter-two-step', {'bad': C19}, (CPT, "const unsigned n = ctl_count++;", "const unsigned n = ctl_count.load();\n    ctl_count.store(n + 1);"))
E('s-no-sep', {'bad': C19}, (CPT, "xtrctl.%ld.%u", "xtrctl.%ld%u"))
E('s-no-pid', {'bad': C19}, (CPT, "\"%s/xtrctl.%ld.%u\", dir.c_str(), pid, n", "\"%s/xtrctl.%u\", dir.c_str(), n"), (CPT, "const long pid = ::getpid();", ""))
E('s-short', {'bad': C19}, (CPT, "xtrctl.%ld.%u", "xtrctl.%ld.%hhu"))
E('s-buffer', {'bad': C19}, (CPT, "char path[PATH_MAX];", "char path[128];"), (CPT, "snprintf(path, sizeof(path),", "snprintf(path, PATH_MAX,"))
E('s-rundir', {'bad': C19}, (CPT, "char rundir[32];", "char rundir[16];"), (CPT, "snprintf(rundir, sizeof(rundir),", "snprintf(rundir, 32,"))
E('s-ok-copy', {'ok': C19}, (CDC, "    path_ = std::move(path);\n", "    path_ = path;\n"))
E('s-ok-swap', {'ok': C19}, (CDC, "    path_ = std::move(path);\n", "    path_.swap(path);\n"))
E('s-ok-zero-first', {'ok': C19}, (CDC, "    addr.sun_family = AF_LOCAL;\n", "    std::memset(&addr, 0, sizeof(addr));\n    addr.sun_family = AF_LOCAL;\n"))
E('s-ok-init', {'ok': C19}, (CDC, "    sockaddr_un addr;\n", "    sockaddr_un addr{};\n"), (CDC, """#if defined(__linux__)
    if (addr.sun_path[0] == '\\0') // abstract socket
    {
        std::memset(
            addr.sun_path + path.size(),
            '\\0',
            sizeof(addr.sun_path) - path.size());
    }
#endif
""", ""))
E('s-ok-ge', {'ok': C19}, (CDC, "path.size() > sizeof(addr.sun_path) - 1", "path.size() >= sizeof(addr.sun_path)"))
E('s-ok-neg', {'ok': C19}, (CDC, "sizeof(addr)) == -1)", "sizeof(addr)) < 0)"), (CDC, "::listen(fd.get(), 64) == -1", "::listen(fd.get(), 64) != 0"))
E('s-ok-emplace', {'ok': C19}, (CDC, "    pollfds_.push_back(pollfd{std::move(fd), POLLIN, 0});", "    pollfd p{std::move(fd), POLLIN, 0};\n    pollfds_.emplace_back(std::move(p));"))
E('s-ok-unlink-always', {'ok': C19}, (CDC, "    if (!path_.empty())\n        ::unlink(path_.c_str());", "    if (path_.empty())\n        return;\n    ::unlink(path_.data());"))
E('s-ok-empty', {'ok': C19}, (CO, "    if (path == null_command_path)\n", "    if (path.empty())\n"))
E('s-ok-make-unique', {'ok': C19}, (CO, "    cmds_.reset(new detail::command_dispatcher(std::move(path)));\n", "    cmds_ = decltype(cmds_)(new detail::command_dispatcher(std::move(path)));\n"))
E('s-ok-local', {'ok': C19}, (CO, """    cmds_.reset(new detail::command_dispatcher(std::move(path)));

    // Reset if failed to open
    if (!cmds_->is_open())
    {
        cmds_.reset();
        return;
    }
""", """    cmds_.reset();
    decltype(cmds_) c(new detail::command_dispatcher(std::move(path)));
    if (!c->is_open())
        return;
    cmds_ = std::move(c);
"""))
E('s-ok-fetch', {'ok': C19}, (CPT, "ctl_count++;", "ctl_count.fetch_add(1, std::memory_order_relaxed);"))
E('s-ok-string', {'ok': C19}, (CPT, """    std::snprintf(path, sizeof(path), "%s/xtrctl.%ld.%u", dir.c_str(), pid, n);

    return path;""", """    return dir + "/xtrctl." + std::to_string(pid) + "." + std::to_string(n);"""), (CPT, "    char path[PATH_MAX];\n", ""))

# ---------------------------------------------------------------- C20
C20 = ['C20']
DROP = """                n_dropped);
            sinks_[n].dropped_count += n_dropped;
        }
"""
E('d-other-total', {'bad': C20}, (CO, "            sinks_[n].dropped_count += n_dropped;", "            sinks_[0].dropped_count += n_dropped;"))
E('d-no-total', {'bad': C20}, (CO, "            sinks_[n].dropped_count += n_dropped;\n", ""))
E('d-set-total', {'bad': C20}, (CO, "sinks_[n].dropped_count += n_dropped;", "sinks_[n].dropped_count = n_dropped;"))
E('d-plus-one', {'bad': C20}, (CO, "sinks_[n].dropped_count += n_dropped;", "sinks_[n].dropped_count += 1;"))
E('d-two-step', {'bad': C20}, (RB, "return dropped_count_.exchange(0, std::memory_order_relaxed);", "const size_type r = dropped_count_.load(std::memory_order_relaxed);\n        dropped_count_.store(0, std::memory_order_relaxed);\n        return r;"))
E('d-no-reset', {'bad': C20}, (RB, "return dropped_count_.exchange(0, std::memory_order_relaxed);", "return dropped_count_.load(std::memory_order_relaxed);"))
E('d-inc-two-step', {'bad': C20}, (RB, "dropped_count_.fetch_add(1, std::memory_order_relaxed);", "dropped_count_.store(dropped_count_.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);"))
E('d-threshold', {'bad': C20}, (CO, "sinks_[n]->buf_.dropped_count()) > 0)", "sinks_[n]->buf_.dropped_count()) > 1)"))
E('d-other-name', {'bad': C20}, (CO, "                ts,\n                sinks_[n].name,", "                ts,\n                sinks_[0].name,"))
E('d-other-sink', {'bad': C20}, (CO, "(n_dropped = sinks_[n]->buf_.dropped_count()) > 0)", "(n_dropped = sinks_.back()->buf_.dropped_count()) > 0)"))
E('d-level', {'bad': C20}, (CO, "                log_level_t::warning,\n                ts,", "                log_level_t::debug,\n                ts,"))
E('d-first-only', {'bad': C20}, (CO, "        if (sinks_[n]->buf_.read_span().empty() &&\n", "        if (sinks_[n].dropped_count == 0 && sinks_[n]->buf_.read_span().empty() &&\n"))
E('d-sometimes', {'bad': C20}, (CO, "        if (sinks_[n]->buf_.read_span().empty() &&\n", "        if (i % 1024 == 0 && sinks_[n]->buf_.read_span().empty() &&\n"))
E('d-line-total', {'bad': C20}, (CO, DROP, """                sinks_[n].dropped_count + n_dropped);
            sinks_[n].dropped_count += n_dropped;
        }
"""))
E('d-silent', {'bad': C20}, (CO, """            detail::print(
                buf,
                "{}{} {}: {} messages dropped\\n",
                log_level_t::warning,
                ts,
                sinks_[n].name,
                n_dropped);
""", ""))
E('d-ok-order', {'ok': C20}, (CO, "            detail::print(\n                buf,\n                \"{}{} {}: {} messages", "            sinks_[n].dropped_count += n_dropped;\n            detail::print(\n                buf,\n                \"{}{} {}: {} messages"), (CO, "                n_dropped);\n            sinks_[n].dropped_count += n_dropped;\n", "                n_dropped);\n"))
E('d-ok-always', {'ok': C20}, (CO, "        if (sinks_[n]->buf_.read_span().empty() &&\n            (n_dropped", "        if ((n_dropped"))
E('d-ok-nested', {'ok': ['C20', 'C09', 'C10', 'C01']}, (CO, """        if (sinks_[n]->buf_.read_span().empty() &&
            (n_dropped = sinks_[n]->buf_.dropped_count()) > 0)
        {""", """        if (sinks_[n]->buf_.read_span().empty())
            n_dropped = sinks_[n]->buf_.dropped_count();
        else
            n_dropped = 0;
        if (n_dropped != 0)
        {"""))
E('d-ok-ref', {'ok': ['C20', 'C09', 'C10', 'C01']}, (CO, """        if (sinks_[n]->buf_.read_span().empty() &&
            (n_dropped = sinks_[n]->buf_.dropped_count()) > 0)
        {""", """        auto& h = sinks_[n];
        if (h->buf_.read_span().empty() &&
            (n_dropped = h->buf_.dropped_count()) > 0)
        {"""), (CO, "                ts,\n                sinks_[n].name,", "                ts,\n                h.name,"), (CO, "sinks_[n].dropped_count += n_dropped;", "h.dropped_count += n_dropped;"))
E('d-ok-helper', {'ok': ['C20', 'C09', 'C10', 'C01']}, (CO, "    bool ts_stale = true;\n", """    bool ts_stale = true;
    const auto report_drops = [&](sink_handle& h)
    {
        const std::size_t n_dropped = h->buf_.dropped_count();
        if (n_dropped == 0)
            return;
        detail::print(
            buf,
            "{}{} {}: {} messages dropped\\n",
            log_level_t::warning,
            ts,
            h.name,
            n_dropped);
        h.dropped_count += n_dropped;
    };
"""), (CO, """        std::size_t n_dropped;
        if (sinks_[n]->buf_.read_span().empty() &&
            (n_dropped = sinks_[n]->buf_.dropped_count()) > 0)
        {
            detail::print(
                buf,
                "{}{} {}: {} messages dropped\\n",
                log_level_t::warning,
                ts,
                sinks_[n].name,
                n_dropped);
            sinks_[n].dropped_count += n_dropped;
        }
""", """        if (sinks_[n]->buf_.read_span().empty())
            report_drops(sinks_[n]);
"""))

# ---- C21: exceptions stay within their line
C21 = ['C21']
_CLR = "                e.what());\n            buf.line.clear();\n"
E('x-noclear', {'bad': C21}, (PR, _CLR, "                e.what());\n"))
E('x-noclear2', {'bad': C21}, (PR, _CLR, "                e.what());\n            if (buf.line.size() > 4096)\n                buf.line.clear();\n"))
E('x-clear-first', {'ok': C21}, (PR, _CLR, "                e.what());\n"), (PR, "            fmt::format_to(\n                std::back_inserter(buf.line),", "            buf.line.clear();\n            fmt::format_to(\n                std::back_inserter(buf.line),"))
E('x-narrow', {'bad': C21}, (PR, "catch (const std::exception& e)", "catch (const fmt::format_error& e)"))
E('x-narrow2', {'bad': C21}, (PR, "catch (const std::exception& e)", "catch (const std::runtime_error& e)"))
E('x-silent', {'bad': C21}, (PR, """            fmt::print(
                stderr,
                "{}{}: Error writing log: {}\\n"sv,
                buf.lstyle(log_level_t::error),
                ts,
                e.what());
""", "            (void)e;\n"))
E('x-after', {'bad': C21}, (PR, "            buf.append_line();\n", ""), (PR, "            buf.line.clear();\n        }\n#endif\n", "            buf.line.clear();\n        }\n#endif\n        buf.append_line();\n"))
E('x-rethrow', {'bad': C21}, (PR, _CLR, _CLR + "            throw;\n"))
E('x-flush-narrow', {'bad': C21}, (BU, "catch (const std::exception& e)", "catch (const std::ios_base::failure& e)"), (BU, "#include <span>\n", "#include <span>\n#include <ios>\n"))
E('x-flush-out', {'bad': C21}, (BU, "        if (storage_)\n            storage_->flush();\n#if __cpp_exceptions\n    }\n", "#if __cpp_exceptions\n    }\n"), (BU, "            e.what());\n    }\n#endif\n}", "            e.what());\n    }\n#endif\n    if (storage_)\n        storage_->flush();\n}"))
E('x-append-noclear', {'bad': C21}, (BU, "    append(line.begin(), line.end());\n    line.clear();\n", "    append(line.begin(), line.end());\n    if (line.size() < 65536)\n        line.clear();\n"))
E('x-ok-catchall', {'ok': C21 + ['C02', 'C06']}, (PR, "            buf.line.clear();\n        }\n#endif\n", "            buf.line.clear();\n        }\n        catch (...)\n        {\n            fmt::print(stderr, \"Error writing log\\n\");\n            buf.line.clear();\n        }\n#endif\n"))
E('x-ok-first', {'ok': C21}, (PR, "            using namespace std::literals::string_view_literals;\n", "            using namespace std::literals::string_view_literals;\n            buf.line.clear();\n"), (PR, _CLR, "                e.what());\n"))
E('x-ok-resize', {'ok': C21}, (PR, _CLR, "                e.what());\n            buf.line.resize(0);\n"))
E('x-ok-erase', {'ok': C21}, (PR, _CLR, "                e.what());\n            buf.line.erase();\n"))
E('x-ok-assign', {'ok': C21}, (PR, _CLR, "                e.what());\n            buf.line = \"\";\n"))
E('x-ok-helper', {'ok': C21}, (PR, """            fmt::print(
                stderr,
                "{}{}: Error writing log: {}\\n"sv,
                buf.lstyle(log_level_t::error),
                ts,
                e.what());
            buf.line.clear();
""", "            discard_line(buf, ts, e);\n"), (PR, "    template<typename Timestamp, typename... Args>\n    void print(\n", """    template<typename Timestamp>
    void discard_line(buffer& buf, const Timestamp& ts, const std::exception& e)
    {
        fmt::print(
            stderr,
            "{}{}: Error writing log: {}\\n",
            buf.lstyle(log_level_t::error),
            ts,
            e.what());
        buf.line.clear();
    }

    template<typename Timestamp, typename... Args>
    void print(
"""))
E('x-ok-guard', {'ok': C21 + ['C02', 'C06', 'C20']}, (PR, """#if __cpp_exceptions
        try
""", """        struct clear_line
        {
            ~clear_line() { line.clear(); }
            std::string& line;
        } guard{buf.line};
#if __cpp_exceptions
        try
"""), (PR, _CLR, "                e.what());\n"))
E('x-ok-local', {'ok': C21 + ['C02', 'C06']}, (PR, "            fmt::format_to(\n                std::back_inserter(buf.line),", "            std::string& line = buf.line;\n            const char* style = buf.lstyle(level);\n            fmt::format_to(\n                std::back_inserter(line),"), (PR, "                buf.lstyle(level),\n", "                style,\n"))
E('x-ok-cerr', {'ok': C21}, (PR, """            fmt::print(
                stderr,
                "{}{}: Error writing log: {}\\n"sv,
                buf.lstyle(log_level_t::error),
                ts,
                e.what());
""", "            std::fputs(fmt::format(\"{}{}: Error writing log: {}\\n\"sv, buf.lstyle(log_level_t::error), ts, e.what()).c_str(), stderr);\n"))

# ---- C22: style, timestamp and name of every line
C22 = ['C22']
E('t-stale', {'bad': C22}, (CO, "            ts_stale |= true;\n            if (cmds_)\n", "            if (cmds_)\n                ts_stale = true;\n            if (cmds_)\n"))
E('t-never', {'bad': C22}, (CO, "            ts_stale |= true;\n", ""))
E('t-onlyempty', {'bad': C22}, (CO, "            ts_stale |= true;\n", "            ts_stale |= flush_count == 0;\n"))
E('t-name', {'bad': C22}, (CO, "pos = fptr(buf, pos, *this, ts, sinks_[n].name);", "pos = fptr(buf, pos, *this, ts, sinks_[i % sinks_.size()].name);"))
E('t-name2', {'bad': C22}, (CO, "pos = fptr(buf, pos, *this, ts, sinks_[n].name);", "pos = fptr(buf, pos, *this, ts, sinks_.back().name);"))
E('t-term', {'bad': C22}, (CO, "            *fmt::format_to_n(\n                ts, sizeof(ts) - 1, \"{}\", xtr::timespec{clock()}).out = '\\0';", "            fmt::format_to_n(\n                ts, sizeof(ts) - 1, \"{}\", xtr::timespec{clock()});"))
E('t-bound', {'bad': C22}, (CO, "ts, sizeof(ts) - 1, \"{}\"", "ts, sizeof(ts), \"{}\""))
E('t-nobound', {'bad': C22}, (CO, "*fmt::format_to_n(\n                ts, sizeof(ts) - 1, \"{}\", xtr::timespec{clock()}).out", "*fmt::format_to(\n                ts, \"{}\", xtr::timespec{clock()})"))
E('t-order', {'bad': C22}, (PR, "                ts,\n                name,\n                args...);\n\n", "                name,\n                ts,\n                args...);\n\n"))
E('t-style', {'bad': C22}, (PR, "                buf.lstyle(level),\n", "                \"\",\n"))
E('t-ok-eager', {'ok': C22}, (CO, "            ts_stale |= true;\n", "            *fmt::format_to_n(\n                ts, sizeof(ts) - 1, \"{}\", xtr::timespec{clock()}).out = '\\0';\n"), (CO, """        if (ts_stale)
        {
            *fmt::format_to_n(
                ts, sizeof(ts) - 1, "{}", xtr::timespec{clock()}).out = '\\0';
            ts_stale = false;
        }

""", ""), (CO, "    bool ts_stale = true;\n", ""))
E('t-ok-always', {'ok': C22}, (CO, "        if (ts_stale)\n        {\n            *fmt", "        {\n            *fmt"))
E('t-ok-assign', {'ok': C22}, (CO, "ts_stale |= true;", "ts_stale = true;"))
E('t-ok-inv', {'ok': C22}, (CO, "bool ts_stale = true;", "bool ts_fresh = false;"), (CO, "ts_stale |= true;", "ts_fresh = false;"), (CO, "if (ts_stale)", "if (!ts_fresh)"), (CO, "            ts_stale = false;", "            ts_fresh = true;"))
E('t-ok-lambda', {'ok': C22 + ['C01', 'C09', 'C10', 'C20']}, (CO, "    std::size_t flush_count = 0;\n", "    std::size_t flush_count = 0;\n    const auto refresh = [&]()\n    {\n        *fmt::format_to_n(\n            ts, sizeof(ts) - 1, \"{}\", xtr::timespec{clock()}).out = '\\0';\n        ts_stale = false;\n    };\n"), (CO, """            *fmt::format_to_n(
                ts, sizeof(ts) - 1, "{}", xtr::timespec{clock()}).out = '\\0';
            ts_stale = false;
        }
""", "            refresh();\n        }\n"))
E('t-ok-local', {'ok': C22 + ['C01', 'C09', 'C10', 'C20']}, (CO, "            *fmt::format_to_n(\n                ts, sizeof(ts) - 1, \"{}\", xtr::timespec{clock()}).out = '\\0';", "            const xtr::timespec now{clock()};\n            const auto r = fmt::format_to_n(ts, sizeof(ts) - 1, \"{}\", now);\n            *r.out = '\\0';"))
E('t-ok-while', {'ok': C22 + ['C01', 'C09', 'C10', 'C20']}, (CO, """        do
        {
            assert(std::uintptr_t(pos) % alignof(sink::fptr_t) == 0);""", """        while (pos < end)
        {
            assert(std::uintptr_t(pos) % alignof(sink::fptr_t) == 0);"""), (CO, "        } while (pos < end);\n", "        }\n"))

# ---- behaviour-preserving rewrites of the producer side
PS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C18', 'C20']
E('q-ok-refresh', {'ok': PS}, (RB, """            wrnread_plus_capacity_ =
                nread_plus_capacity_.load(std::memory_order_acquire);
            sz = wrnread_plus_capacity_ - wrnwritten_;

            if constexpr (is_non_blocking_v<Tags>)""", """            sz = refresh_writable();

            if constexpr (is_non_blocking_v<Tags>)"""), (RB, "    template<typename Tags = void()>\n    span write_span_spec(", """    size_type refresh_writable() noexcept
    {
        wrnread_plus_capacity_ =
            nread_plus_capacity_.load(std::memory_order_acquire);
        return wrnread_plus_capacity_ - wrnwritten_;
    }

    template<typename Tags = void()>
    span write_span_spec("""))
E('q-ok-split', {'ok': PS}, (RB, """        while (sz < minsize) [[unlikely]]
        {
            if constexpr (!is_non_blocking_v<Tags>)
                pause();

            wrnread_plus_capacity_ =
                nread_plus_capacity_.load(std::memory_order_acquire);
            sz = wrnread_plus_capacity_ - wrnwritten_;

            if constexpr (is_non_blocking_v<Tags>)
                break;
        }

        if (is_non_blocking_v<Tags> && sz < minsize) [[unlikely]]
        {
            dropped_count_.fetch_add(1, std::memory_order_relaxed);
            return span{};
        }
""", """        if constexpr (is_non_blocking_v<Tags>)
        {
            if (sz < minsize) [[unlikely]]
            {
                wrnread_plus_capacity_ =
                    nread_plus_capacity_.load(std::memory_order_acquire);
                sz = wrnread_plus_capacity_ - wrnwritten_;
                if (sz < minsize)
                {
                    dropped_count_.fetch_add(1, std::memory_order_relaxed);
                    return span{};
                }
            }
        }
        else
        {
            for (; sz < minsize; sz = wrnread_plus_capacity_ - wrnwritten_)
            {
                pause();
                wrnread_plus_capacity_ =
                    nread_plus_capacity_.load(std::memory_order_acquire);
            }
        }
"""))
E('q-ok-publish', {'ok': PS}, (RB, "        wrnwritten_ += nbytes;\n        nwritten_.store(wrnwritten_, std::memory_order_release);", "        const size_type n = wrnwritten_ + nbytes;\n        nwritten_.store(n, std::memory_order_release);\n        wrnwritten_ = n;"))
E('q-ok-return', {'ok': PS + ['C09', 'C10', 'C22']}, (RB, "        nread_plus_capacity_.fetch_add(nbytes, std::memory_order_release);", "        nread_plus_capacity_.store(\n            nread_plus_capacity_.load(std::memory_order_relaxed) + nbytes,\n            std::memory_order_release);"))
E('q-ok-readorder', {'ok': PS + ['C09', 'C10', 'C22']}, (RB, """        const size_type nr =
            nread_plus_capacity_.load(std::memory_order_relaxed) - capacity();
        const auto b = begin() + clamp(nr, capacity());
        // This acquire pairs with the release in reduce_writable(). No reads or
        // writes in the current thread can be reordered before this load.
        const size_type sz = nwritten_.load(std::memory_order_acquire) - nr;
""", """        // This acquire pairs with the release in reduce_writable(). No reads or
        // writes in the current thread can be reordered before this load.
        const size_type nw = nwritten_.load(std::memory_order_acquire);
        const size_type nr =
            nread_plus_capacity_.load(std::memory_order_relaxed) - capacity();
        const auto b = begin() + clamp(nr, capacity());
        const size_type sz = nw - nr;
"""))
E('q-ok-reserve', {'ok': PS}, (SK, """    if ((s.size() < size)) [[unlikely]]
        s = buf_.write_span<Tags>(size);

    if (detail::is_non_blocking_v<Tags> && s.empty()) [[unlikely]]
        return;

    copy(s.begin(), &detail::trampolineN<Format, Level, detail::consumer, Func>);
    copy(func_pos, std::forward<Func>(func));
""", """    if (size > s.size()) [[unlikely]]
    {
        s = buf_.write_span<Tags>(size);
        if (detail::is_non_blocking_v<Tags> && s.empty()) [[unlikely]]
            return;
    }

    copy(func_pos, std::forward<Func>(func));
    copy(s.begin(), &detail::trampolineN<Format, Level, detail::consumer, Func>);
"""))
E('q-ok-strorder', {'ok': PS}, (SK, """    const auto next = detail::align<alignof(fptr_t)>(str_cur);
    const auto total_size = ring_buffer::size_type(next - s.begin());

    buf_.reduce_writable(total_size);
""", """    buf_.reduce_writable(
        ring_buffer::size_type(
            detail::align<alignof(fptr_t)>(str_cur) - s.begin()));
"""), (SK, "    auto str_cur = str_pos;\n    auto str_end = s.end();\n", "    auto str_end = s.end();\n    auto str_cur = str_pos;\n"))
E('q-ok-zero', {'ok': PS}, (SK, """    const ring_buffer::span s = buf_.write_span_spec<Tags>(sizeof(fptr_t));
    if (detail::is_non_blocking_v<Tags> && s.empty()) [[unlikely]]
        return;
    copy(""", """    constexpr auto size = sizeof(fptr_t);
    const ring_buffer::span s = buf_.write_span_spec<Tags>(size);
    if constexpr (detail::is_non_blocking_v<Tags>)
    {
        if (s.empty()) [[unlikely]]
            return;
    }
    copy("""), (SK, "    buf_.reduce_writable(sizeof(fptr_t));\n", "    buf_.reduce_writable(size);\n"))
E('q-ok-funcpos', {'ok': PS + ['C21', 'C22']}, (TR, """        auto func_pos = record + sizeof(fptr_t);
        if constexpr (alignof(Func) > alignof(fptr_t))
            func_pos = align<alignof(Func)>(func_pos);

        assert(std::uintptr_t(func_pos) % alignof(Func) == 0);

        // Invoke""", """        const auto func_pos = func_address<Func>(record);

        assert(std::uintptr_t(func_pos) % alignof(Func) == 0);

        // Invoke"""), (TR, """        auto func_pos = record + sizeof(fptr_t);
        if constexpr (alignof(Func) > alignof(fptr_t))
            func_pos = align<alignof(Func)>(func_pos);
        assert""", """        const auto func_pos = func_address<Func>(record);
        assert"""), (TR, "    // Fixed-size capture trampoline", """    template<typename Func>
    std::byte* func_address(std::byte* record) noexcept
    {
        auto pos = record + sizeof(void(*)());
        if constexpr (alignof(Func) > alignof(void(*)()))
            pos = align<alignof(Func)>(pos);
        return pos;
    }

    // Fixed-size capture trampoline"""))
E('q-ok-next', {'ok': PS + ['C21', 'C22']}, (TR, """        static_assert(noexcept(func.~Func()));
        std::destroy_at(std::addressof(func));

        return func_pos + align(sizeof(Func), alignof(fptr_t));""", """        std::byte* const next = func_pos + align(sizeof(Func), alignof(fptr_t));
        static_assert(noexcept(func.~Func()));
        func.~Func();
        return next;"""))
E('q-ok-entry', {'ok': PS + ['C06', 'C21']}, (ST, """        if (entry.size == string_table_entry::truncated) [[unlikely]]
            return string_ref<std::string_view>("<truncated>");
        const std::string_view str(reinterpret_cast<const char*>(pos), entry.size);
        pos += entry.size;
        return string_ref<std::string_view>(str);""", """        if (entry.size != string_table_entry::truncated) [[likely]]
        {
            const auto begin = reinterpret_cast<const char*>(pos);
            pos += entry.size;
            return string_ref<std::string_view>(
                std::string_view(begin, entry.size));
        }
        return string_ref<std::string_view>("<truncated>");"""))
E('q-ok-wait', {'ok': PS}, (ST, """        while (end < str_end) [[unlikely]]
        {
            pause();
            const auto s = buf.write_span();
            if (s.end() < str_end) [[unlikely]]
            {
                if (s.size() == buf.capacity() || is_non_blocking_v<Tags>)
                    return string_table_entry{string_table_entry::truncated};
            }
            end = s.end();
        }

        std::memcpy(pos, sv.data(), sv.length());
        pos += sv.length();

        return string_table_entry(sv.length());""", """        const std::size_t length = sv.length();
        for (;;)
        {
            if (str_end <= end) [[likely]]
                break;
            pause();
            const auto s = buf.write_span();
            const bool fits = str_end <= s.end();
            if (!fits && (is_non_blocking_v<Tags> || s.size() == buf.capacity()))
                return string_table_entry{string_table_entry::truncated};
            end = s.end();
        }

        std::memcpy(pos, sv.data(), length);
        pos = str_end;

        return string_table_entry(length);"""))
E('q-ok-cstr', {'ok': PS}, (ST, """        while (*str != '\\0')
        {
            while (pos == end) [[unlikely]]
            {""", """        for (; *str != '\\0'; ++str)
        {
            while (pos == end) [[unlikely]]
            {"""), (ST, "            ::new (pos++) char(*str++);\n", "            ::new (pos) char(*str);\n            ++pos;\n"))
E('q-ok-strhelper', {'ok': PS}, (ST, "    template<typename Tags, typename Buffer>\n    string_table_entry build_string_table(", """    template<typename Tags, typename Buffer, typename Span>
    bool must_truncate(const Buffer& buf, const Span& s)
    {
        return is_non_blocking_v<Tags> || s.size() == buf.capacity();
    }

    template<typename Tags, typename Buffer>
    string_table_entry build_string_table("""), (ST, """                if (s.end() == end) [[unlikely]]
                {
                    if (s.size() == buf.capacity() || is_non_blocking_v<Tags>)
                    {
                        pos = begin;
                        return string_table_entry{string_table_entry::truncated};
                    }
                }
""", """                if (s.end() == end && must_truncate<Tags>(buf, s)) [[unlikely]]
                {
                    pos = begin;
                    return string_table_entry{string_table_entry::truncated};
                }
"""))

# ---- behaviour-preserving rewrites elsewhere
LOOP = ['C01', 'C09', 'C10', 'C20', 'C22']
SYN = ['C08', 'C09', 'C11', 'C18']
E('h-ok-close-early', {'ok': SYN + ['C10', 'C17']}, (SI, """    if (open_)
    {
        sync_post([](detail::consumer& c) { c.destroy = true; });
        open_ = false;
""", """    if (!open_)
        return;
    {
        const auto forget = [](detail::consumer& c) { c.destroy = true; };
        sync_post(forget);
        open_ = false;
"""))
E('h-ok-syncwait', {'ok': SYN}, (SI, "    while (!notified)\n        cv.wait(lock);", "    for (;;)\n    {\n        if (notified)\n            break;\n        cv.wait(lock);\n    }"))
E('h-ok-syncstate', {'ok': SYN}, (SI, "    std::condition_variable cv;\n    std::mutex m;\n    bool notified = false; // protected by m\n", "    std::mutex m;\n    std::condition_variable cv;\n    bool notified{}; // protected by m\n"), (SI, "            std::scoped_lock lock{m};\n            notified = true;", "            const std::lock_guard<std::mutex> lock(m);\n            notified = true;"))
E('h-ok-flushsync', {'ok': SYN + ['C10']}, (SI, """    sync_post(
        [](detail::consumer& c)
        {
            c.buf.flush();
            c.buf.storage().sync();
        });
""", """    sync_post(
        [](detail::consumer& c)
        {
            auto& b = c.buf;
            b.flush();
            auto& st = b.storage();
            st.sync();
        });
"""))
E('h-ok-assign', {'ok': SYN + ['C18']}, (SI, """    if (other.open_)
    {
        const_cast<sink&>(other).post(
            [this](detail::consumer& c, const auto& name) { c.add_sink(*this, name); });
        open_ = true;
    }

    return *this;""", """    if (!other.open_)
        return *this;

    auto& src = const_cast<sink&>(other);
    open_ = true;
    src.post(
        [self = this](detail::consumer& c, const auto& name)
        {
            c.add_sink(*self, name);
        });
    return *this;"""))
E('h-ok-replyinvalid', {'ok': ['C15', 'C16', 'C14']}, (CO, """    if (!matcher->valid())
    {
        detail::frame<detail::error> ef;
        matcher->error_reason(ef->reason, sizeof(ef->reason));
        cmds_->send(fd, ef);
        return;
    }

    for (std::size_t i = 1; i < sinks_.size(); ++i)
    {
        auto& s = sinks_[i];

        if (!(*matcher)(s.name.c_str()))
            continue;

        s->set_level(sl.level);
    }

    cmds_->send(fd, detail::frame<detail::success>());
""", """    if (!matcher->valid())
    {
        detail::frame<detail::error> frame;
        auto& reason = frame->reason;
        matcher->error_reason(reason, sizeof(reason));
        cmds_->send(fd, frame);
    }
    else
    {
        const auto level = sl.level;
        std::size_t i = 1;
        while (i < sinks_.size())
        {
            auto& s = sinks_[i++];
            const bool matched = (*matcher)(s.name.c_str());
            if (matched)
                s->set_level(level);
        }
        const detail::frame<detail::success> ok;
        cmds_->send(fd, ok);
    }
"""))
E('h-ok-info', {'ok': ['C15', 'C16']}, (CO, """        detail::frame<detail::sink_info> sif;

        sif->level = s->level();
        sif->buf_capacity = s->buf_.capacity();
        sif->buf_nbytes = s->buf_.read_span().size();
        sif->dropped_count = s.dropped_count;
        detail::strzcpy(sif->name, s.name);

        cmds_->send(fd, sif);
""", """        detail::frame<detail::sink_info> sif;
        auto& info = *sif.operator->();

        detail::strzcpy(info.name, s.name);
        info.dropped_count = s.dropped_count;
        info.level = s->level();
        const auto& queue = s->buf_;
        info.buf_nbytes = queue.read_span().size();
        info.buf_capacity = queue.capacity();

        cmds_->send(fd, sif);
"""))
E('h-ok-reopen', {'ok': ['C14', 'C15']}, (CO, """    if (const int errnum = buf.storage().reopen())
        cmds_->send_error(fd, std::strerror(errnum));
    else
        cmds_->send(fd, detail::frame<detail::success>());""", """    const int errnum = buf.storage().reopen();
    if (errnum == 0)
    {
        cmds_->send(fd, detail::frame<detail::success>());
        return;
    }
    cmds_->send_error(fd, std::strerror(errnum));"""))
E('h-ok-uring-wait', {'ok': ['C13', 'C17', 'C10', 'C08']}, (IU, """    const auto nwritten = unsigned(res);

    assert(nwritten <= buf->size_);

    if (nwritten != buf->size_) [[unlikely]] // Short write
    {
        resubmit_buffer(buf.release(), nwritten);
        goto retry;
    }
""", """    const auto nwritten = unsigned(res);

    assert(nwritten <= buf->size_);

    if (nwritten == buf->size_) [[likely]]
        return;

    // Short write
    buffer* const rest = buf.release();
    resubmit_buffer(rest, nwritten);
    goto retry;
"""))
E('h-ok-uring-loop', {'ok': ['C13', 'C17', 'C10', 'C08']}, (IU, "    struct io_uring_cqe* cqe = nullptr;\n    int errnum;\n\nretry:\n", "    for (;;)\n    {\n    struct io_uring_cqe* cqe = nullptr;\n    int errnum;\n"), (IU, """        resubmit_buffer(buf.release(), 0);
        goto retry;
""", """        resubmit_buffer(buf.release(), 0);
        continue;
"""), (IU, """    if (nwritten != buf->size_) [[unlikely]] // Short write
    {
        resubmit_buffer(buf.release(), nwritten);
        goto retry;
    }
""", """    if (nwritten != buf->size_) [[unlikely]] // Short write
    {
        resubmit_buffer(buf.release(), nwritten);
        continue;
    }
    return;
    }
"""))
E('h-ok-uring-prep', {'ok': ['C13']}, (IU, """    ::io_uring_prep_write_fixed(
        sqe, fd_.get(), buf->data_, buf->size_, buf->file_offset_, buf->index_);

    ::io_uring_sqe_set_data(sqe, buf);

    offset_ += size;
    ++pending_cqe_count_;
""", """    prepare_write(sqe, fd_.get(), buf);
    ++pending_cqe_count_;
    offset_ += size;
"""), (IU, """XTR_FUNC
void xtr::io_uring_fd_storage::submit_buffer(""", """namespace
{
    template<typename Buffer>
    void prepare_write(io_uring_sqe* sqe, int fd, Buffer* buf)
    {
        ::io_uring_prep_write_fixed(
            sqe,
            fd,
            buf->data_ + buf->offset_,
            buf->size_,
            buf->file_offset_,
            buf->index_);
        ::io_uring_sqe_set_data(sqe, buf);
    }
}

XTR_FUNC
void xtr::io_uring_fd_storage::submit_buffer("""), (IU, """    ::io_uring_prep_write_fixed(
        sqe,
        fd_.get(),
        buf->data_ + buf->offset_,
        buf->size_,
        buf->file_offset_,
        buf->index_);

    ::io_uring_sqe_set_data(sqe, buf);

    ++pending_cqe_count_;
""", """    prepare_write(sqe, fd_.get(), buf);

    ++pending_cqe_count_;
"""))
E('h-ok-uring-alloc', {'ok': ['C13', 'C17']}, (IU, """    buffer* buf = free_list_;
    free_list_ = free_list_->next_;

    buf->size_ = 0;
    buf->offset_ = 0;
    buf->file_offset_ = offset_;

    return {buf->data_, buffer_capacity_};""", """    buffer& buf = *free_list_;
    buf.file_offset_ = offset_;
    buf.offset_ = 0;
    buf.size_ = 0;
    free_list_ = buf.next_;

    return std::span<char>(buf.data_, buffer_capacity_);"""))
E('h-ok-uring-close', {'ok': ['C13', 'C14', 'C17']}, (IU, """    io_uring_sqe* sqe = get_sqe();
    ::io_uring_prep_close(sqe, fd_.release());
""", """    io_uring_sqe* const sqe = get_sqe();
    const int oldfd = fd_.release();
    ::io_uring_prep_close(sqe, oldfd);
"""), (IU, """    sqe->flags |= IOSQE_IO_DRAIN;
    ++pending_cqe_count_;
    io_uring_submit_func_(&ring_);
""", """    ++pending_cqe_count_;
    sqe->flags |= IOSQE_IO_DRAIN;
    flush();
"""))
E('h-ok-posix', {'ok': ['C12', 'C17', 'C14']}, (PX, """    while (size > 0)
    {
        const ::ssize_t nwritten =
            XTR_TEMP_FAILURE_RETRY(::write(fd_.get(), buf, size));
        if (nwritten == -1)
        {
            detail::throw_system_error_fmt(
                errno,
                "xtr::posix_fd_storage::submit_buffer: write failed");
            return;
        }
        size -= std::size_t(nwritten);
        buf += std::size_t(nwritten);
    }""", """    const char* const end = buf + size;
    for (const char* pos = buf; pos != end;)
    {
        const ::ssize_t n =
            XTR_TEMP_FAILURE_RETRY(
                ::write(fd_.get(), pos, std::size_t(end - pos)));
        if (n == -1)
        {
            const int errnum = errno;
            detail::throw_system_error_fmt(
                errnum,
                "xtr::posix_fd_storage::submit_buffer: write failed");
            return;
        }
        pos += n;
    }"""))
E('h-ok-cmd-accept', {'ok': ['C16', 'C17', 'C15']}, (CDC, """        if (fd)
            pollfds_.push_back(pollfd{std::move(fd), POLLIN, 0});
        else
            err("Error: Failed to accept connection on command socket");
        --nfds;
    }
""", """        --nfds;
        if (!fd)
            err("Error: Failed to accept connection on command socket");
        else
            pollfds_.emplace_back(std::move(fd), POLLIN, 0);
    }
"""), (CDC, "    pollfds_.push_back(pollfd{std::move(fd), POLLIN, 0});\n}", "    pollfds_.push_back(pollfd{std::move(fd), POLLIN, 0});\n}\n"))
E('h-ok-cmd-read', {'ok': ['C15', 'C16']}, (CDC, """    if (nbytes < ::ssize_t(sizeof(frame_header)))
    {
        send_error(fd, "Incomplete frame header");
        return;
    }

    const auto cpos = callbacks_.find(buf.hdr.frame_id);

    if (cpos == callbacks_.end())
    {
        send_error(fd, "Invalid frame id");
        return;
    }

    if (nbytes != ::ssize_t(cpos->second.size))
    {
        send_error(fd, "Invalid frame length");
        return;
    }
""", """    const auto size = std::size_t(nbytes);

    if (size < sizeof(frame_header))
        return send_error(fd, "Incomplete frame header");

    const auto cpos = callbacks_.find(buf.hdr.frame_id);
    if (cpos == callbacks_.end())
        return send_error(fd, "Invalid frame id");

    const auto& callback = cpos->second;
    if (size != callback.size)
        return send_error(fd, "Invalid frame length");
"""), (CDC, "        cpos->second.func(fd, &buf);\n", "        callback.func(fd, &buf);\n"))
E('h-ok-cmd-write', {'ok': ['C15', 'C16', 'C17']}, (CDC, """    ::ssize_t nwritten = 0;

    for (; cr.pos < cr.bufs.size(); ++cr.pos)
    {
        nwritten =
            command_send(fd, cr.bufs[cr.pos].buf.get(), cr.bufs[cr.pos].size);
        if (nwritten != ::ssize_t(cr.bufs[cr.pos].size))
            break;
    }

    if ((nwritten == -1 && errno != EAGAIN) || cr.pos == cr.bufs.size())
    {
        results_.erase(fd);
        disconnect(pfd);
    }""", """    ::ssize_t nwritten = 0;

    while (cr.pos != cr.bufs.size())
    {
        const buffer& b = cr.bufs[cr.pos];
        nwritten = command_send(fd, b.buf.get(), b.size);
        if (nwritten != ::ssize_t(b.size))
            break;
        ++cr.pos;
    }

    const bool done = cr.pos == cr.bufs.size();
    const bool failed = nwritten == -1 && errno != EAGAIN;
    if (!done && !failed)
        return;

    results_.erase(fd);
    disconnect(pfd);"""))
E('h-ok-cmd-loop', {'ok': ['C15', 'C16', 'C17']}, (CDC, """        const int fd = pollfds_[i].fd.get();
        if ((pollfds_[i].revents & POLLOUT) != 0)
        {
            process_socket_write(pollfds_[i]);
            --nfds;
        }
        else if ((pollfds_[i].revents & (POLLHUP|POLLIN)) != 0)
        {
            process_socket_read(pollfds_[i]);
            --nfds;
        }
""", """        auto& pfd = pollfds_[i];
        const int fd = pfd.fd.get();
        const auto revents = pfd.revents;
        if (revents & POLLOUT)
        {
            --nfds;
            process_socket_write(pfd);
        }
        else if (revents & (POLLIN|POLLHUP))
        {
            --nfds;
            process_socket_read(pfd);
        }
"""))
E('h-ok-cmd-ctor', {'ok': ['C19', 'C17']}, (CDC, """    if (path.size() > sizeof(addr.sun_path) - 1)
    {""", """    const std::size_t length = path.size();

    if (length >= sizeof(addr.sun_path))
    {"""), (CDC, "    addr.sun_family = AF_LOCAL;\n    std::memcpy(addr.sun_path, path.c_str(), path.size() + 1);\n", "    std::memset(&addr, 0, sizeof(addr));\n    addr.sun_family = AF_LOCAL;\n    std::memcpy(addr.sun_path, path.data(), length);\n    addr.sun_path[length] = '\\0';\n"))
E('h-ok-buf-next', {'ok': ['C12', 'C21', 'C10']}, (BU, """        if (pos_ != begin_)
        {
            storage_->submit_buffer(begin_, std::size_t(pos_ - begin_));
            pos_ = begin_ = end_ = nullptr;
        }
        if (storage_)
            storage_->flush();""", """        const auto nbytes = std::size_t(pos_ - begin_);
        if (nbytes != 0)
        {
            storage_->submit_buffer(begin_, nbytes);
            begin_ = nullptr;
            pos_ = nullptr;
            end_ = nullptr;
        }
        if (auto* st = storage_.get())
            st->flush();"""))
E('h-ok-run-index', {'ok': LOOP}, (CO, "        const std::size_t n = i % sinks_.size();\n", "        const std::size_t nsinks = sinks_.size();\n        const std::size_t n = i % nsinks;\n"), (CO, "        if ((span = sinks_[n]->buf_.read_span()).empty())\n        {", "        span = sinks_[n]->buf_.read_span();\n        if (span.empty())\n        {"))
E('h-ok-run-flush', {'ok': LOOP}, (CO, "            if (flush_count != 0 && flush_count-- == 1)\n                buf.flush();\n            continue;", "            if (flush_count > 0)\n            {\n                --flush_count;\n                if (flush_count == 0)\n                    buf.flush();\n            }\n            continue;"))
E('h-ok-run-helper', {'ok': LOOP}, (CO, """        std::byte* pos = span.begin();
        std::byte* end = std::min(span.end(), sinks_[n]->buf_.end());
        do
        {
            assert(std::uintptr_t(pos) % alignof(sink::fptr_t) == 0);
            assert(!destroy);
            const sink::fptr_t fptr = *reinterpret_cast<const sink::fptr_t*>(pos);
            pos = fptr(buf, pos, *this, ts, sinks_[n].name);
        } while (pos < end);
""", """        std::byte* const end = std::min(span.end(), sinks_[n]->buf_.end());
        const auto run_one = [&](std::byte* record)
        {
            assert(std::uintptr_t(record) % alignof(sink::fptr_t) == 0);
            assert(!destroy);
            const auto fptr = *reinterpret_cast<const sink::fptr_t*>(record);
            return fptr(buf, record, *this, ts, sinks_[n].name);
        };
        std::byte* pos = run_one(span.begin());
        while (pos < end)
            pos = run_one(pos);
"""))
E('h-ok-run-swap', {'ok': LOOP}, (CO, """            using std::swap;
            swap(sinks_[n], sinks_.back()); // possible self-swap, ok
            sinks_.pop_back();
""", """            if (n + 1 != sinks_.size())
                std::swap(sinks_[n], sinks_.back());
            sinks_.pop_back();
"""))
E('h-ok-run-for', {'ok': LOOP}, (CO, """        do
        {
            assert(std::uintptr_t(pos) % alignof(sink::fptr_t) == 0);""", """        for (; pos < end;)
        {
            assert(std::uintptr_t(pos) % alignof(sink::fptr_t) == 0);"""), (CO, "        } while (pos < end);\n", "        }\n"), (CO, "        sinks_[n]->buf_.reduce_readable(\n            sink::ring_buffer::size_type(pos - span.begin()));\n", "        const auto consumed = sink::ring_buffer::size_type(pos - span.begin());\n        auto& queue = sinks_[n]->buf_;\n        queue.reduce_readable(consumed);\n"))

# ---- patterns
MA, RM, WM = 'src/matcher.cpp', 'src/regex_matcher.cpp', 'src/wildcard_matcher.cpp'
WMH, RMH = 'include/xtr/detail/commands/wildcard_matcher.hpp', 'include/xtr/detail/commands/regex_matcher.hpp'
M23 = ['C15', 'C17', 'C23']
E('m-casefold', {'bad': ['C23']}, (WM, 'ignore_case ? FNM_CASEFOLD : 0', 'ignore_case ? 0 : FNM_CASEFOLD'))
E('m-pathname', {'bad': ['C23']}, (WM, 'ignore_case ? FNM_CASEFOLD : 0', '(ignore_case ? FNM_CASEFOLD : 0) | FNM_PATHNAME'))
E('m-noflags', {'bad': ['C23']}, (WM, 'str, flags_)', 'str, 0)'))
E('m-swap-args', {'bad': ['C23']}, (WM, '::fnmatch(pattern_, str, flags_)', '::fnmatch(str, pattern_, flags_)'))
E('m-basic', {'bad': ['C23']}, (MA, 'pattern, ignore_case, true', 'pattern, ignore_case, false'))
E('m-ext', {'bad': ['C23']}, (MA, 'pattern, ignore_case, false', 'pattern, ignore_case, true'))
E('m-arg-order', {'bad': ['C23']}, (MA, 'pattern, ignore_case, true', 'pattern, true, ignore_case'))
E('m-icase', {'bad': ['C23']}, (RM, 'ignore_case ? REG_ICASE : 0', 'ignore_case && extended ? REG_ICASE : 0'))
E('m-newline', {'bad': ['C23']}, (RM, 'REG_NOSUB |', 'REG_NOSUB | REG_NEWLINE |'))
E('m-notbol', {'bad': ['C23']}, (RM, '0, nullptr, 0)', '0, nullptr, REG_NOTBOL)'))
E('m-valid', {'bad': ['C23']}, (RM, 'return errnum_ == 0;', 'return errnum_ != REG_EBRACK;'))
E('m-fallthrough', {'bad': ['C23']}, (MA, '    case pattern_type_t::none:\n        break;\n    }', '    case pattern_type_t::none:\n        break;\n    default:\n        return std::make_unique<wildcard_matcher>(pattern, ignore_case);\n    }'))
E('m-handler', {'bad': ['C23']}, (CO, 'sl.pattern.type, sl.pattern.text, sl.pattern.ignore_case', 'sl.pattern.type, sl.pattern.text, false'))
E('m-handler2', {'bad': ['C23']}, (CO, 'st.pattern.type, st.pattern.text, st.pattern.ignore_case', 'pattern_type_t::wildcard, st.pattern.text, st.pattern.ignore_case'))
E('m-ok-if', {'ok': M23}, (MA, '''    switch (pattern_type)
    {
    case pattern_type_t::wildcard:
        return std::make_unique<wildcard_matcher>(pattern, ignore_case);
    case pattern_type_t::extended_regex:
        return std::make_unique<regex_matcher>(pattern, ignore_case, true);
    case pattern_type_t::basic_regex:
        return std::make_unique<regex_matcher>(pattern, ignore_case, false);
    case pattern_type_t::none:
        break;
    }
    return std::make_unique<matcher>();
''', '''    const bool extended = pattern_type == pattern_type_t::extended_regex;
    if (pattern_type == pattern_type_t::wildcard)
        return std::make_unique<wildcard_matcher>(pattern, ignore_case);
    if (extended || pattern_type == pattern_type_t::basic_regex)
        return std::make_unique<regex_matcher>(pattern, ignore_case, extended);
    return std::make_unique<matcher>();
'''))
E('m-ok-result', {'ok': M23}, (MA, '''    switch (pattern_type)
    {
    case pattern_type_t::wildcard:
        return std::make_unique<wildcard_matcher>(pattern, ignore_case);
    case pattern_type_t::extended_regex:
        return std::make_unique<regex_matcher>(pattern, ignore_case, true);
    case pattern_type_t::basic_regex:
        return std::make_unique<regex_matcher>(pattern, ignore_case, false);
    case pattern_type_t::none:
        break;
    }
    return std::make_unique<matcher>();
''', '''    std::unique_ptr<matcher> result;
    switch (pattern_type)
    {
    case pattern_type_t::wildcard:
        result = std::make_unique<wildcard_matcher>(pattern, ignore_case);
        break;
    case pattern_type_t::extended_regex:
    case pattern_type_t::basic_regex:
        result.reset(new regex_matcher(pattern, ignore_case, pattern_type != pattern_type_t::basic_regex));
        break;
    default:
        result = std::make_unique<matcher>();
    }
    return result;
'''))
E('m-ok-flags', {'ok': M23}, (RM, '''    const int flags =
        REG_NOSUB | (ignore_case ? REG_ICASE : 0) | (extended ? REG_EXTENDED : 0);
''', '''    int flags = REG_NOSUB;
    if (ignore_case)
        flags |= REG_ICASE;
    if (extended)
        flags |= REG_EXTENDED;
'''))
E('m-ok-bool', {'ok': M23}, (WMH, 'int flags_;', 'bool ignore_case_;'), (WM, 'flags_(ignore_case ? FNM_CASEFOLD : 0)', 'ignore_case_(ignore_case)'), (WM, '    return ::fnmatch(pattern_, str, flags_) == 0;', '    const int flags = ignore_case_ ? FNM_CASEFOLD : 0;\n    const int rc = ::fnmatch(pattern_, str, flags);\n    return !rc;'))
E('m-ok-regexec', {'ok': M23}, (RM, '    return ::regexec(&regex_, str, 0, nullptr, 0) == 0;', '    if (::regexec(&regex_, str, 0, nullptr, 0) != 0)\n        return false;\n    return true;'))
E('m-ok-order', {'ok': M23}, (RMH, '    ::regex_t regex_;\n    int errnum_;', '    int errnum_;\n    ::regex_t regex_;'))
E('m-ok-init', {'ok': M23}, (WM, ''':
    pattern_(pattern),
    flags_(ignore_case ? FNM_CASEFOLD : 0)
{
}''', '''{
    flags_ = 0;
    if (ignore_case)
        flags_ |= FNM_CASEFOLD;
    pattern_ = pattern;
}'''))
E('m-ok-handler', {'ok': M23}, (CO, '''    const auto matcher =
        detail::make_matcher(
            sl.pattern.type, sl.pattern.text, sl.pattern.ignore_case);
''', '''    const detail::pattern& p = sl.pattern;
    const std::unique_ptr<detail::matcher> matcher(
        detail::make_matcher(p.type, p.text, p.ignore_case));
'''))

# ---- copies of sinks
SC = 'src/sink.cpp'
K24 = ['C09', 'C11', 'C24']
SELF = '''    if (this == &other) [[unlikely]]
        return *this;

'''
KPOST = '''    if (other.open_)
    {
        const_cast<sink&>(other).post(
            [this](detail::consumer& c, const auto& name) { c.add_sink(*this, name); });
        open_ = true;
    }
'''
KLEVEL = '    level_ = other.level_.load(std::memory_order_relaxed);\n'
E('k-self', {'bad': ['C24']}, (SC, SELF, ''))
E('k-no-close', {'bad': ['C24']}, (SC, SELF + '    close();\n', SELF))
E('k-close-late', {'bad': ['C24']}, (SC, SELF + '    close();\n', SELF), (SC, KLEVEL, KLEVEL + '    const bool was_open = other.open_;\n    if (!was_open)\n        close();\n'))
E('k-no-level', {'bad': ['C24']}, (SC, KLEVEL, ''))
E('k-level-open', {'bad': ['C24']}, (SC, KLEVEL, '    if (other.open_)\n    ' + KLEVEL))
E('k-level-own', {'bad': ['C24']}, (SC, KLEVEL, '    level_ = level_.load(std::memory_order_relaxed);\n'))
E('k-open', {'bad': ['C24']}, (SC, '        open_ = true;\n    }\n\n    return *this;', '    }\n    open_ = true;\n\n    return *this;'))
E('k-not-open', {'bad': ['C24']}, (SC, '        open_ = true;\n    }\n\n    return *this;', '    }\n\n    return *this;'))
E('k-own-queue', {'bad': ['C24']}, (SC, 'const_cast<sink&>(other).post(', 'this->post('))
E('k-other', {'bad': ['C24']}, (SC, '[this](detail::consumer& c, const auto& name) { c.add_sink(*this, name); }', '[p = const_cast<sink*>(&other)](detail::consumer& c, const auto& name) { c.add_sink(*p, name); }'))
E('k-twice', {'bad': ['C24']}, (SC, '{ c.add_sink(*this, name); }', '{ c.add_sink(*this, name); c.add_sink(*this, name); }'))
E('k-name', {'bad': ['C24']}, (SC, '{ c.add_sink(*this, name); }', '{ (void)name; c.add_sink(*this, std::string()); }'))
E('k-noadd', {'bad': ['C24']}, (SC, '{ c.add_sink(*this, name); }', '{ if (!name.empty()) c.add_sink(*this, name); }'))
E('k-regname', {'bad': ['C24']}, ('src/logger.cpp', '''(detail::consumer& c, auto&)
        {
            c.add_sink(s, name);''', '''(detail::consumer& c, auto& n)
        {
            c.add_sink(s, n);'''))
E('k-ok-nest', {'ok': K24}, (SC, SELF, '    if (this != &other)\n    {\n'), (SC, KPOST, KPOST + '    }\n'))
E('k-ok-flag', {'ok': K24}, (SC, KPOST, '''    const bool source_open = other.open_;
    if (source_open)
    {
        sink& source = const_cast<sink&>(other);
        source.post(
            [self = this](detail::consumer& c, const std::string& name)
            {
                c.add_sink(*self, name);
            });
    }
    open_ = source_open;
'''))
E('k-ok-levelfn', {'ok': K24}, (SC, KLEVEL, '    set_level(other.level());\n'))
E('k-ok-early', {'ok': K24}, (SC, KPOST, '''    if (!other.open_)
        return *this;
''' + KPOST.replace('    if (other.open_)\n', '')))
E('k-ok-order', {'ok': K24}, (SC, SELF + '    close();\n\n' + KLEVEL, SELF + '    const auto lvl = other.level();\n    close();\n    level_.store(lvl, std::memory_order_relaxed);\n'))
E('k-ok-add', {'ok': K24 + ['C22']}, (CO, 'sinks_.push_back(sink_handle{&s, name});', 'sink_handle h;\n    h.p = &s;\n    h.name = name;\n    sinks_.push_back(std::move(h));'))
E('k-ok-add2', {'ok': K24 + ['C22']}, (CO, 'sinks_.push_back(sink_handle{&s, name});', 'sinks_.emplace_back(sink_handle{.p = &s, .name = name});'))
E('k-ok-ctor', {'ok': K24}, (SC, '''xtr::sink::sink(const sink& other)
{
    *this = other;
}''', '''xtr::sink::sink(const sink& other)
:
    level_(other.level())
{
    sink::operator=(other);
}'''))
