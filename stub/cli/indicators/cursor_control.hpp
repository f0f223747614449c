#pragma once
namespace indicators { inline bool cursor_shown = true; static inline void show_console_cursor(bool const show) { cursor_shown = show; } }
