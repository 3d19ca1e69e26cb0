// instantiates nothing: makes the header-only classes visible to the extractor
#include <tvm/internal/CallbackManager.h>
#include <tvm/internal/PairElementToken.h>
