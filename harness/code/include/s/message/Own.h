#pragma once

namespace s
{

struct Own {};

} // namespace s
