D='ruy/denormal.cc'
T='ruy/thread_pool.cc'
R='ruy/trmul.cc'
M='ruy/frontend.cc'
MUT=[
('mask-ftz','bug',['F01'],D,'_mm_setcsr(_mm_getcsr() | 0x8040);','_mm_setcsr(_mm_getcsr() | 0x8000);'),
('mask-daz','bug',['F01'],D,'_mm_setcsr(_mm_getcsr() | 0x8040);','_mm_setcsr(_mm_getcsr() | 0x0040);'),
('late-save','bug',['F01'],D,'  restore_ = get_fpu_state();\n  disable_fpu_denormals();','  disable_fpu_denormals();\n  restore_ = get_fpu_state();'),
('no-restore','bug',['F01'],D,'ScopedSuppressDenormals::~ScopedSuppressDenormals() { set_fpu_state(restore_); }','ScopedSuppressDenormals::~ScopedSuppressDenormals() {}'),
('part-restore','bug',['F01'],D,'_mm_setcsr(static_cast<unsigned int>(state.mxcsr));','_mm_setcsr(static_cast<unsigned int>(state.mxcsr | 0x8000));'),
('default-restore','bug',['F01'],D,'_mm_setcsr(static_cast<unsigned int>(state.mxcsr));','_mm_setcsr(0x1f80);'),
('cond-restore','bug',['F01'],D,'{ set_fpu_state(restore_); }','{ if (!(restore_.mxcsr & 0x40)) set_fpu_state(restore_); }'),
('wk-none','bug',['F01'],T,'    ScopedSuppressDenormals suppress_denormals;\n',''),
('wk-temp','bug',['F01'],T,'    ScopedSuppressDenormals suppress_denormals;\n','    ScopedSuppressDenormals();\n'),
('wk-block','bug',['F01'],T,'    ScopedSuppressDenormals suppress_denormals;\n','    { ScopedSuppressDenormals suppress_denormals; }\n'),
('tr-none','bug',['F01'],R,'  ScopedSuppressDenormals suppress_denormals;\n',''),
('tr-temp','bug',['F01'],R,'  ScopedSuppressDenormals suppress_denormals;\n','  ScopedSuppressDenormals{};\n'),
('ref-task','ref',['F01'],[(T,'    ScopedSuppressDenormals suppress_denormals;\n',''),(T,'      task_->Run();\n','      ScopedSuppressDenormals suppress_denormals;\n      task_->Run();\n')]),
('ref-first','ref',['F01'],[(T,'''    RevertToReadyState();

    // Suppress denormals to avoid computation inefficiency.
    ScopedSuppressDenormals suppress_denormals;
''','''    // Suppress denormals to avoid computation inefficiency.
    ScopedSuppressDenormals suppress_denormals;
    RevertToReadyState();
''')]),
('ref-loop','ref',['F01'],T,'''    while (GetNewStateOtherThanReady() == State::HasWork) {
      RevertToReadyState();
    }
''','''    for (;;) {
      if (GetNewStateOtherThanReady() != State::HasWork) break;
      RevertToReadyState();
    }
'''),
('ref-two','ref',['F01'],D,'_mm_setcsr(_mm_getcsr() | 0x8040);','unsigned v = _mm_getcsr();\n  v |= 0x8000;\n  v |= 0x0040;\n  _mm_setcsr(v);'),
('ref-twice','ref',['F01'],D,'_mm_setcsr(_mm_getcsr() | 0x8040);','_mm_setcsr(_mm_getcsr() | 0x8000);\n  _mm_setcsr(_mm_getcsr() | 0x0040);'),
('ref-macro','ref',['F01'],D,'_mm_setcsr(_mm_getcsr() | 0x8040);','_MM_SET_FLUSH_ZERO_MODE(_MM_FLUSH_ZERO_ON);\n  _mm_setcsr(_mm_getcsr() | 0x0040);'),
('ref-early','ref',['F01'],R,'  ScopedSuppressDenormals suppress_denormals;\n','  ScopedSuppressDenormals suppress_denormals{};\n  (void)&suppress_denormals;\n'),
('ref-front','ref',['F01'],[(R,'  ScopedSuppressDenormals suppress_denormals;\n',''),(M,'  TrMul(ctx, params);\n','  {\n    ScopedSuppressDenormals suppress_denormals;\n    TrMul(ctx, params);\n  }\n'),(M,'#include "ruy/frontend.h"\n','#include "ruy/frontend.h"\n#include "ruy/denormal.h"\n')]),
('ref-heap','ref',['F01'],[(R,'  ScopedSuppressDenormals suppress_denormals;\n','  std::unique_ptr<ScopedSuppressDenormals> suppress_denormals(new ScopedSuppressDenormals);\n'),(R,'#include "ruy/trmul.h"\n','#include "ruy/trmul.h"\n#include <memory>\n')]),
]
