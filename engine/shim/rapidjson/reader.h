// Shim: /usr/include/rapidjson is 1.1.0, which lacks the pull interface
// (IterativeParseInit / IterativeParseNext / IterativeParseComplete) the
// repository uses.  This adds it on top of 1.1.0's own iterative state machine,
// following the implementation in later rapidjson releases.
#pragma once
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include "rapidjson/rapidjson.h"
#include "rapidjson/allocators.h"
#include "rapidjson/stream.h"
#include "rapidjson/encodings.h"
#include "rapidjson/internal/meta.h"
#include "rapidjson/internal/stack.h"
#include "rapidjson/internal/strtod.h"
#define Reader ReaderV110
#define private public
#include_next <rapidjson/reader.h>
#undef private
#undef Reader
namespace rapidjson {
class Reader : public ReaderV110 {
 public:
   void IterativeParseInit() {
      parseResult_.Clear();
      state_ = IterativeParsingStartState;
   }
#ifdef ABIEOS_SHIM_DECL_ONLY
   template <unsigned parseFlags, typename InputStream, typename Handler>
   bool IterativeParseNext(InputStream& is, Handler& handler);
#else
   template <unsigned parseFlags, typename InputStream, typename Handler>
   bool IterativeParseNext(InputStream& is, Handler& handler) {
      while (RAPIDJSON_LIKELY(is.Peek() != '\0')) {
         SkipWhitespaceAndComments<parseFlags>(is);
         Token                 t = Tokenize(is.Peek());
         IterativeParsingState n = Predict(state_, t);
         IterativeParsingState d = Transit<parseFlags>(state_, t, n, is, handler);
         if (d == IterativeParsingFinishState || d == IterativeParsingErrorState) {
            if (d == IterativeParsingErrorState) {
               HandleError(state_, is);
               return false;
            }
            state_ = d;
            if (!(parseFlags & kParseStopWhenDoneFlag)) {
               SkipWhitespaceAndComments<parseFlags>(is);
               if (is.Peek() != '\0') {
                  HandleError(state_, is);
                  return false;
               }
            }
            return true;
         }
         state_ = d;
         if (n != IterativeParsingElementDelimiterState && n != IterativeParsingMemberDelimiterState &&
             n != IterativeParsingKeyValueDelimiterState)
            return true;
      }
      stack_.Clear();
      if (state_ != IterativeParsingFinishState) {
         HandleError(state_, is);
         return false;
      }
      return true;
   }
#endif
   bool IterativeParseComplete() const {
      return state_ == IterativeParsingFinishState || state_ == IterativeParsingErrorState;
   }

   IterativeParsingState state_ = IterativeParsingStartState;
};
} // namespace rapidjson
