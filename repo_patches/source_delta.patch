From b31bb573508f4be0e714ff8840cada2718f6b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 01/56] fix: ask the tested DSP for its channel layout and
 sample rate support before processing

---
 include/hart_process_audio.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 162b0dc..f77e496 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -351,7 +351,12 @@ public:
             check.shouldSkip = false;
         }
 
-        // TODO: Ckeck supportsChannelLayout() here
+        if (! m_processor->supportsSampleRate (m_sampleRateHz))
+            HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", std::move (m_processor));
+
+        if (! m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels))
+            HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Channel layout is not supported by the tested DSP", std::move (m_processor));
+
         m_processor->reset();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
-- 
2.43.0


From 70185851bb05747f80dcef37293933aac72fc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 02/56] fix: query a Signal's own channel and sample rate
 support before preparing it

---
 include/signals/hart_signal.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index f36a981..7928951 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -197,10 +197,13 @@ public:
     /// @attention If you're not making a custom host, you probably don't need to call this method.
     void prepareWithDSPChain (double sampleRateHz, size_t numOutputChannels, size_t maxBlockSizeFrames)
     {
-        prepare (sampleRateHz, numOutputChannels, maxBlockSizeFrames);
         const size_t numInputChannels = numOutputChannels;
 
-        // TODO: Check if all the effects in the chain support those settings first
+        if (! supportsNumChannels (numOutputChannels))
+            HART_THROW_OR_RETURN_VOID (ChannelLayoutError, "The Signal does not support this number of channels");
+
+        if (! supportsSampleRate (sampleRateHz))
+            HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "The Signal does not support this sample rate");
 
         for (auto& dsp : dspChain)
         {
@@ -209,9 +212,12 @@ public:
 
             if (! dsp->supportsSampleRate (sampleRateHz))
                 HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "Not all DSP in the Signal's DSP chain support its sample rate");
+        }
 
+        prepare (sampleRateHz, numOutputChannels, maxBlockSizeFrames);
+
+        for (auto& dsp : dspChain)
             dsp->prepareWithEnvelopes (sampleRateHz, numInputChannels, numOutputChannels, maxBlockSizeFrames);
-        }
     }
 
     /// @brief Renders next block audio for the signal and all the effects in the DSP chain
-- 
2.43.0


From 10d97258ccf5ac9f61b83a3944c4f7100bd2e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 03/56] fix: use the last envelope attached to a parameter, as
 documented

---
 include/dsp/hart_dsp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 8608d93..e3d478d 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -185,7 +185,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, hart::make_unique<Envelope> (std::move (envelope)));
+        m_envelopes[paramId] = hart::make_unique<Envelope> (std::move (envelope));
         return *this;
     }
 
@@ -202,7 +202,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, envelope.copy());
+        m_envelopes[paramId] = envelope.copy();
         return *this;
     }
 
-- 
2.43.0


From 159bd897e960ce4ef85e9df4545697e008a4465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 04/56] fix: make DSP::withEnvelope() compile for temporary
 envelopes

---
 include/dsp/hart_dsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index e3d478d..2719b0e 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -185,7 +185,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes[paramId] = hart::make_unique<Envelope> (std::move (envelope));
+        m_envelopes[paramId] = envelope.copy();  // Envelope is abstract, and copy() is the only way to keep its actual type
         return *this;
     }
 
-- 
2.43.0


From 186d8a597de3ac59d470dbc82f25ad1b7f4e1108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 05/56] fix: drop the old envelopes when assigning one DSP to
 another

---
 include/dsp/hart_dsp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 2719b0e..3525637 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -156,6 +156,8 @@ public:
         if (this == &other)
             return *this;
 
+        m_envelopes.clear();
+
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
 
-- 
2.43.0


From c151a6b63a032ed65ce04dc3bf9b8def4127889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 06/56] fix: prepare attached envelopes with the host's sample
 rate

---
 include/dsp/hart_dsp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 3525637..293faa9 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -231,6 +231,7 @@ public:
         for (auto& item : m_envelopes)
         {
             const int paramId = item.first;
+            item.second->prepare (sampleRateHz, maxBlockSizeFrames);
             m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));
         }
 
-- 
2.43.0


From d5a93f63daf7c176919c347706073c40774fc76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 07/56] fix: restore the start value of SegmentedEnvelope's
 first ramp on reset

---
 include/envelopes/hart_segmentedenvelope.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 0e56502..9aed5b1 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -62,6 +62,7 @@ public:
     {
         m_currentTimeSeconds = 0.0;
         m_currentSegmentIndex = 0;
+        m_beginValue = m_resetValue;
         m_currentValue = m_resetValue;
     }
 
-- 
2.43.0


From 5795826f7ad74bf4e5239f7dccb97138e47620b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 08/56] fix: restart automation envelopes whenever a DSP is
 reset by its host

---
 include/dsp/hart_dsp.hpp        | 11 +++++++++++
 include/hart_process_audio.hpp  |  2 +-
 include/signals/hart_signal.hpp |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 293faa9..0f49e03 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -253,6 +253,17 @@ public:
         prepare (sampleRateHz, numInputChannels, numOutputChannels, maxBlockSizeFrames);
     }
 
+    /// @brief Resets all the attached envelopes and the effect itself to initial state
+    /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder or @ref hart::Signal.
+    /// @attention If you're not making a custom host, you probably don't need to call this method.
+    void resetWithEnvelopes()
+    {
+        for (auto& item : m_envelopes)
+            item.second->reset();
+
+        reset();
+    }
+
     /// @brief Renders all the automation envelopes and processes the audio
     /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder @ref hart::Signal.
     /// If you're making something that owns an instance of a Signal and needs it to generate audio,
diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index f77e496..396e8cb 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -357,7 +357,7 @@ public:
         if (! m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels))
             HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Channel layout is not supported by the tested DSP", std::move (m_processor));
 
-        m_processor->reset();
+        m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
         for (const ParamValue& paramValue : paramValues)
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 7928951..88b3344 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -242,7 +242,7 @@ public:
         reset();
 
         for (auto& dsp : dspChain)
-            dsp->reset();
+            dsp->resetWithEnvelopes();
     }
 
     /// @brief Makes a text representation of this signal and its entire signal chain for test failure outputs.
-- 
2.43.0


From e03f4c5196ec492127c356bbfa58654041524dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 09/56] fix: do not access the last segment of a
 SegmentedEnvelope that has none

---
 include/envelopes/hart_segmentedenvelope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 9aed5b1..7136da9 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -189,7 +189,7 @@ private:
         }
 
         if (m_currentSegmentIndex >= m_segments.size())
-            m_currentValue = m_segments.back().targetValue;
+            m_currentValue = m_endValue;
     }
 };
 
-- 
2.43.0


From 74a2fa191dfe72e0d6c12f77447f47452b8b64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 10/56] fix: hand out exactly one automation value per frame in
 a short last block

---
 include/dsp/hart_dsp.hpp    | 5 +++--
 include/dsp/hart_gaindb.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 0f49e03..0d32228 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -281,9 +281,10 @@ public:
             // Sanity checks
             hassert (supportsEnvelopeFor (paramId) && "Envelope for this id is unsupported, yet there's an envelope buffer allocated for it");
             hassert (hasEnvelopeFor (paramId) && "Envelope for this param id is not attached, yet there's an envelope buffer allocated for it");
-            hassert (input.getNumFrames() <= envelopeBuffer.size() && "Envelope Buffers were not allocated properly for this buffer size");
+            hassert (input.getNumFrames() <= envelopeBuffer.capacity() && "Envelope Buffers were not allocated properly for this buffer size");
 
-            // Render envelope values
+            // Render envelope values, one per frame of this block
+            envelopeBuffer.resize (input.getNumFrames());
             getValues (paramId, envelopeBuffer.size(), envelopeBuffer);
         }
         
diff --git a/include/dsp/hart_gaindb.hpp b/include/dsp/hart_gaindb.hpp
index 66f2a32..5a106a5 100644
--- a/include/dsp/hart_gaindb.hpp
+++ b/include/dsp/hart_gaindb.hpp
@@ -52,8 +52,9 @@ public:
         if (hasGainEnvelope)
         {
             auto& gainEnvelopeValuesDb = envelopeBuffers. at(Params::gainDb);
-            hassert (gainEnvelopeValuesDb.size() == m_gainEnvelopeValuesLinear.size());
-            
+            hassert (gainEnvelopeValuesDb.size() == input.getNumFrames());
+            m_gainEnvelopeValuesLinear.resize (gainEnvelopeValuesDb.size());
+
             for (size_t i = 0; i < m_gainEnvelopeValuesLinear.size(); ++i)
                 m_gainEnvelopeValuesLinear[i] = decibelsToRatio (gainEnvelopeValuesDb[i]);
 
-- 
2.43.0


From e2c3065c68235138388dfa3c7127d9386a067f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 11/56] fix: prepare matchers that get the full signal for its
 full length

---
 include/hart_process_audio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 396e8cb..3315a88 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -346,7 +346,7 @@ public:
 
         for (auto& check : fullSignalChecks)
         {
-            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);
+            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_durationFrames);
             check.matcher->reset();
             check.shouldSkip = false;
         }
-- 
2.43.0


From b47e66d52f6ea879d0804fee4c694aa5f19b2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 12/56] fix: report correct timestamps for checks of the full
 signal

---
 include/hart_process_audio.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 3315a88..b6c92b8 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -396,6 +396,7 @@ public:
             offsetFrames += blockSizeFrames;
         }
 
+        offsetFrames = 0;  // Full signal checks get the audio from its very beginning
         const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer);
         atLeastOneCheckFailed |= ! allChecksPassed;
 
-- 
2.43.0


From e16ce4eb734ce1dd8371c47026e287989845963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 13/56] fix: keep on running the other checks after an
 expectation has failed

---
 include/hart_process_audio.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index b6c92b8..aa9953d 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -490,6 +490,8 @@ private:
 
     bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
     {
+        bool allChecksPassed = true;
+
         for (auto& check : checksGroup)
         {
             if (check.shouldSkip)
@@ -539,11 +541,11 @@ private:
                 // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
-                return false;
+                allChecksPassed = false;
             }
         }
 
-        return true;
+        return allChecksPassed;
     }
 
     void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock)
-- 
2.43.0


From 67f1f58176c396d6850a600f24e14133f70bae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 14/56] fix: save the requested output and plot when an
 assertion fails

---
 include/hart_process_audio.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index aa9953d..afcd57f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -373,6 +373,8 @@ public:
         m_inputSignal->prepareWithDSPChain (m_sampleRateHz, m_numInputChannels, m_blockSizeFrames);
         offsetFrames = 0;
 
+        m_assertionFailMessage.clear();
+
         AudioBuffer<SampleType> fullInputBuffer (m_numInputChannels);
         AudioBuffer<SampleType> fullOutputBuffer (m_numOutputChannels);
         bool atLeastOneCheckFailed = false;
@@ -406,6 +408,9 @@ public:
         if (m_savePlotMode == Save::always || (m_savePlotMode == Save::whenFails && atLeastOneCheckFailed))
             plotData (fullInputBuffer, fullOutputBuffer, m_sampleRateHz, m_savePlotPath);
 
+        if (! m_assertionFailMessage.empty())
+            throw hart::TestAssertException (m_assertionFailMessage);
+
         return std::move (m_processor);
     }
 
@@ -452,6 +457,9 @@ private:
     std::string m_savePlotPath;
     Save m_savePlotMode = Save::never;
 
+    /// Message of an assertion that has failed, but is held back until the requested files are saved
+    std::string m_assertionFailMessage = {};
+
     void addCheck (const Matcher<SampleType>& matcher, SignalAssertionLevel signalAssertionLevel, bool shouldPass)
     {
         const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers
@@ -492,6 +500,9 @@ private:
     {
         bool allChecksPassed = true;
 
+        if (! m_assertionFailMessage.empty())
+            return false;  // The test has already failed, just rendering the rest of the audio to save it
+
         for (auto& check : checksGroup)
         {
             if (check.shouldSkip)
@@ -520,7 +531,11 @@ private:
                     if (check.shouldPass)
                         appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock);
 
-                    throw hart::TestAssertException (std::string (stream.str()));
+                    if (m_saveOutputMode == Save::never && m_savePlotMode == Save::never)
+                        throw hart::TestAssertException (std::string (stream.str()));
+
+                    m_assertionFailMessage = stream.str();
+                    return false;
                 }
                 else
                 {
@@ -538,9 +553,7 @@ private:
                     hart::ExpectationFailureMessages::get().emplace_back (stream.str());
                 }
 
-                // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
-                // TODO: Skip all checks if check failed, but asked to output a wav file
                 allChecksPassed = false;
             }
         }
-- 
2.43.0


From 5f83f6b73bb1b29c0233f8de85f7c1a4b219e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 15/56] fix: do not read past the end of a looped WavFile

---
 include/signals/hart_wavfile.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 1d924f2..a3c7cd1 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -95,15 +95,13 @@ public:
         // TODO: Add resampling
         const size_t numFrames = output.getNumFrames();
         size_t frameInOutputBuffer = 0;
-        size_t frameInWavBuffer = m_wavOffsetFrames;
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
             for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
-                output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][frameInWavBuffer];
+                output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][m_wavOffsetFrames];
 
             ++frameInOutputBuffer;
-            ++frameInWavBuffer;
             ++m_wavOffsetFrames;
 
             if (m_loop == Loop::yes)
@@ -112,7 +110,7 @@ public:
 
         while (frameInOutputBuffer < numFrames)
         {
-            hassert (m_loop == Loop::no);
+            hassert (m_loop == Loop::no || m_wavFrames->getNumFrames() == 0);
 
             for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
                 output[channel][frameInOutputBuffer] = (SampleType) 0;
-- 
2.43.0


From 5d3967fc28090fed4a6ab27e1e0f6f8fe123e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 16/56] fix: let WavFile fill fewer channels than the file has,
 as documented

---
 include/signals/hart_wavfile.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index a3c7cd1..538872c 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -82,7 +82,7 @@ public:
     void prepare (double sampleRateHz, size_t numOutputChannels, size_t /*maxBlockSizeFrames*/) override
     {
         // There are a few ovbvious cases where channel number mismatch can be gracefully resolved - perhaps in the future
-        if (numOutputChannels != m_wavNumChannels)
+        if (numOutputChannels > m_wavNumChannels)
             HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, std::string ("Unexpected channel number"));
 
         if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz))
@@ -91,14 +91,14 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        // TODO: Add support for number of channels different from the wav file
+        // TODO: Add support for more channels than there are in the wav file
         // TODO: Add resampling
         const size_t numFrames = output.getNumFrames();
         size_t frameInOutputBuffer = 0;
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
                 output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][m_wavOffsetFrames];
 
             ++frameInOutputBuffer;
@@ -112,7 +112,7 @@ public:
         {
             hassert (m_loop == Loop::no || m_wavFrames->getNumFrames() == 0);
 
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
                 output[channel][frameInOutputBuffer] = (SampleType) 0;
 
             ++frameInOutputBuffer;
-- 
2.43.0


From 90c40299a762df43906d0452bd0d2aabe5bc18a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 17/56] fix: produce silence for a SineSweep shorter than half
 a frame

---
 include/signals/hart_sine_sweep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index cc2d727..c1dd10d 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -134,7 +134,7 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        if (m_generateSilence)
+        if (m_generateSilence || m_durationFrames == 0)
         {
             fillWithSilence (output);
             return;
-- 
2.43.0


From 94628ba900371617b1dc213df1315e1ceba9115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 18/56] fix: do not let matchers accept audio with NaNs

---
 include/matchers/hart_equalsto.hpp   | 2 +-
 include/matchers/hart_peaksat.hpp    | 4 ++--
 include/matchers/hart_peaksbelow.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index e045970..fb07535 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -126,7 +126,7 @@ private:
 
     inline bool notEqual (SampleType x, SampleType y)
     {
-        return std::abs (x - y) > m_toleranceLinear;
+        return x != y && ! (std::abs (x - y) <= m_toleranceLinear);  // True for NaNs
     }
 };
 
diff --git a/include/matchers/hart_peaksat.hpp b/include/matchers/hart_peaksat.hpp
index 496e0ee..94feefd 100644
--- a/include/matchers/hart_peaksat.hpp
+++ b/include/matchers/hart_peaksat.hpp
@@ -47,7 +47,7 @@ public:
             {
                 const SampleType currentPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (currentPeakLinear > observedPeakLinear)
+                if (currentPeakLinear > observedPeakLinear || (std::isnan (currentPeakLinear) && ! std::isnan (observedPeakLinear)))
                 {
                     observedPeakLinear = currentPeakLinear;
                     frameOfObservedPeakLinear = frame;
@@ -56,7 +56,7 @@ public:
             }
         }
 
-        if (std::abs (observedPeakLinear - m_targetLinear) > m_toleranceLinear)
+        if (observedPeakLinear != m_targetLinear && ! (std::abs (observedPeakLinear - m_targetLinear) <= m_toleranceLinear))  // True for NaNs
         {
             m_failedFrame = frameOfObservedPeakLinear;
             m_failedChannel = (int) channelOfObservedPeakLinear;
diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 0e5aa8b..5ece718 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -41,7 +41,7 @@ public:
             {
                 const SampleType observedPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (observedPeakLinear > m_thresholdLinear)
+                if (! (observedPeakLinear <= m_thresholdLinear))  // True for NaNs
                 {
                     m_failedFrame = frame;
                     m_failedChannel = channel;
-- 
2.43.0


From ffe828ce51464613b0509cc5d0e2a1bd240bb410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 19/56] fix: report the level of negative expected values in
 EqualsTo

---
 include/matchers/hart_equalsto.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index fb07535..bbce23f 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -96,7 +96,7 @@ public:
         const SampleType m_differenceLinear = std::abs (m_failedExpectedValue - m_failedObservedValue);
         std::stringstream stream;
         stream << linPrecision << "Expected sample value: " << m_failedExpectedValue
-            << dbPrecision << " (" << ratioToDecibels (m_failedExpectedValue) << " dB)"
+            << dbPrecision << " (" << ratioToDecibels (std::abs (m_failedExpectedValue)) << " dB)"
             << linPrecision << ", difference: " << m_differenceLinear
             << dbPrecision << " (" << ratioToDecibels (m_differenceLinear) << " dB)";
 
-- 
2.43.0


From 61a91fdaee53ea566487ef5d0029620f3dabed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 20/56] fix: do not access elements of an empty vector in
 AudioBuffer::appendFrom()

---
 include/hart_audio_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index b9fc275..6262749 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -112,7 +112,7 @@ public:
 
         for (size_t channel = 0; channel < m_numChannels; ++channel)
         {
-            SampleType* newChannelStart = &combinedFrames[channel * (thisNumFrames + otherNumFrames)];
+            SampleType* newChannelStart = combinedFrames.data() + channel * (thisNumFrames + otherNumFrames);
             std::copy (m_channelPointers[channel], m_channelPointers[channel] + thisNumFrames, newChannelStart);
             std::copy (otherBuffer[channel], otherBuffer[channel] + otherNumFrames, newChannelStart + thisNumFrames);
         }
-- 
2.43.0


From e32cb85bef2012ad1d83ac3797c4a17a0a63b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 21/56] fix: reject frame ranges that overflow in
 AudioBuffer::getMagnitude()

---
 include/hart_audio_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index 6262749..6409585 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -140,7 +140,7 @@ public:
         if (channel >= m_numChannels)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid channel", (SampleType) 0);
 
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (startFrame > m_numFrames || numFrames > m_numFrames - startFrame || numFrames == 0)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         const SampleType* start = m_channelPointers[channel] + startFrame;
@@ -155,7 +155,7 @@ public:
 
     SampleType getMagnitude (size_t startFrame, size_t numFrames) const
     {
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (startFrame > m_numFrames || numFrames > m_numFrames - startFrame || numFrames == 0)
                 HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         SampleType peakSampleAcrossAllChannels = (SampleType) 0;
-- 
2.43.0


From 1988434e71c561fb26aefa60de13f822ee7b77f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 22/56] fix: plot all the channels from the start of the time
 axis

---
 include/hart_plot.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 49bd379..2097ac3 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -44,10 +44,9 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         outputSignalPlot.x.major (t);
     }
 
-    double timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < input.getNumChannels(); ++channel)
     {
+        double timeSeconds = 0.0;
         auto &inputSignalLine = inputSignalPlot.line();
 
         for (size_t frame = 0; frame < input.getNumFrames(); ++frame)
@@ -57,10 +56,9 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         }
     }
 
-    timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
     {
+        double timeSeconds = 0.0;
         auto &outputSignalLine = outputSignalPlot.line();
 
         for (size_t frame = 0; frame < output.getNumFrames(); ++frame)
-- 
2.43.0


From 872facf92518cb24dc7e7eb4e66b1a41de993c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 23/56] fix: fail only the test that threw an exception, and
 carry on with the rest

---
 include/hart_test_registry.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/hart_test_registry.hpp b/include/hart_test_registry.hpp
index ab34844..8197511 100644
--- a/include/hart_test_registry.hpp
+++ b/include/hart_test_registry.hpp
@@ -136,6 +136,16 @@ private:
             assertionFailMessage = e.what();
             assertionFailed = true;
         }
+        catch (const std::exception& e)
+        {
+            assertionFailMessage = std::string ("Unhandled exception: ") + e.what();
+            assertionFailed = true;
+        }
+        catch (...)
+        {
+            assertionFailMessage = "Unhandled exception of unknown type";
+            assertionFailed = true;
+        }
 
         // TODO: Output test durations
 
-- 
2.43.0


From 5d964f9c6fedeecf0115e92e0ab8c81a61228180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 24/56] fix: represent PeaksBelow with its tolerance, not with
 its threshold

---
 include/matchers/hart_peaksbelow.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 5ece718..4885acb 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -27,6 +27,7 @@ public:
     /// @param toleranceLinear Absolute tolerance for comparing frames, in linear domain (not decibels)
     PeaksBelow (double thresholdDb, double toleranceLinear = 1e-3):
         m_thresholdDb ((SampleType) thresholdDb),
+        m_toleranceLinear ((SampleType) toleranceLinear),
         m_thresholdLinear (static_cast<SampleType> (decibelsToRatio (thresholdDb) + toleranceLinear))
     {
     }
@@ -78,13 +79,14 @@ public:
     {
         stream << "PeaksBelow ("
             << dbPrecision << m_thresholdDb << "_dB, "
-            << linPrecision << m_thresholdLinear << ')';
+            << linPrecision << m_toleranceLinear << ')';
     }
 
     HART_MATCHER_DEFINE_COPY_AND_MOVE (PeaksBelow);
 
 private:
     const SampleType m_thresholdDb;
+    const SampleType m_toleranceLinear;
     const SampleType m_thresholdLinear;
 
     size_t m_failedFrame = 0;
-- 
2.43.0


From f41ae4086e790a96814146c060a6ef55fee6d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 25/56] fix: represent SineSweep with its initial phase and
 without a double comma

---
 include/signals/hart_sine_sweep.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index c1dd10d..769c0aa 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -189,8 +189,9 @@ public:
             << hzPrecision
             << m_startFrequencyHz << "_Hz, "
             << m_endFrequencyHz << "_Hz, "
-            << (m_type == SweepType::linear ? ", SweepType::linear" : "SweepType::log")
-            << (m_loop == Loop::yes ? ", Loop::yes)" : ", Loop::no)");
+            << (m_type == SweepType::linear ? "SweepType::linear" : "SweepType::log")
+            << (m_loop == Loop::yes ? ", Loop::yes, " : ", Loop::no, ")
+            << radPrecision << m_initialPhaseRadians << "_rad)";
     }
 
     HART_SIGNAL_DEFINE_COPY_AND_MOVE (SineSweep);
-- 
2.43.0


From 116977f1d2b49311c04068bc95b1b1b75c6123ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 26/56] fix: represent linear gain with the decimals for linear
 values

---
 include/dsp/hart_gainlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_gainlinear.hpp b/include/dsp/hart_gainlinear.hpp
index 5b70120..c44becc 100644
--- a/include/dsp/hart_gainlinear.hpp
+++ b/include/dsp/hart_gainlinear.hpp
@@ -96,7 +96,7 @@ public:
 
     virtual void represent (std::ostream& stream) const override
     {
-        stream << dbPrecision << "GainLinear (" << m_initialGainLinear << ")";
+        stream << linPrecision << "GainLinear (" << m_initialGainLinear << ")";
     }
 
     /// @param id Only @ref GainLinear::gainLinear is accepted
-- 
2.43.0


From 9a2f2cb9145c31746acecd7248398f3c19c81ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 27/56] fix: write NaNs as silence to integer wav files instead
 of casting them to integers

---
 include/hart_wavwriter.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/hart_wavwriter.hpp b/include/hart_wavwriter.hpp
index 0fd9d9d..15a4bad 100644
--- a/include/hart_wavwriter.hpp
+++ b/include/hart_wavwriter.hpp
@@ -77,7 +77,7 @@ public:
                 {
                     for (size_t channel = 0; channel < numChannels; ++channel)
                     {
-                        const double sample = static_cast<double> (buffer[channel][frame]);
+                        const double sample = withoutNaN (buffer[channel][frame]);
                         const int16_t pcmValue = static_cast<int16_t> (std::round (hart::clamp (scale * sample, -scale, scale)));
                         pcmData[frame * numChannels + channel] = pcmValue;
                     }
@@ -96,7 +96,7 @@ public:
                 {
                     for (size_t channel = 0; channel < numChannels; ++channel)
                     {
-                        const double sample = static_cast<double> (buffer[channel][frame]);
+                        const double sample = withoutNaN (buffer[channel][frame]);
                         const int32_t pcmValue = static_cast<int32_t> (std::round (hart::clamp (scale * sample, -scale, scale)));
                         pcmData[frame * numChannels + channel] = pcmValue;
                     }
@@ -115,7 +115,7 @@ public:
                 {
                     for (size_t channel = 0; channel < numChannels; ++channel)
                     {
-                        const double sample = static_cast<double> (buffer[channel][frame]);
+                        const double sample = withoutNaN (buffer[channel][frame]);
                         const int32_t pcmValue = static_cast<int32_t> (std::round (hart::clamp (scale * sample, -scale, scale)));
                         size_t idx = (frame * numChannels + channel) * 3;
                         pcmData[idx] = static_cast<uint8_t> (pcmValue & 0xff);
@@ -131,6 +131,13 @@ public:
 
         drwav_uninit (&drWavHandle);
     }
+
+private:
+    /// Integer formats can't represent NaNs, so they're written as silence
+    static double withoutNaN (SampleType value)
+    {
+        return std::isnan (value) ? 0.0 : static_cast<double> (value);
+    }
 };
 
 } // namespace hart
-- 
2.43.0


From 0432cbca6ba63e9dbcd44d83651a5ff878b431ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 28/56] fix: make Signal::followedBy() compile for references
 to abstract DSP

---
 include/signals/hart_signal.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 88b3344..e156b3d 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -179,6 +179,7 @@ public:
                 DSP<SampleType>,
                 typename std::decay<DerivedDSP>::type
                 >::value
+            && ! std::is_abstract<typename std::decay<DerivedDSP>::type>::value  // Those have to be copied
             >::type
         >
     Signal& followedBy (DerivedDSP&& dsp)
-- 
2.43.0


From 54f617c1e3cada5d42fbcbc1214b8f76e7e75e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 29/56] fix: make HART_*_FORBID_COPY_AND_MOVE usable, it could
 never compile

---
 include/dsp/hart_dsp.hpp          | 6 ++----
 include/matchers/hart_matcher.hpp | 6 ++----
 include/signals/hart_signal.hpp   | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 0d32228..fa87ad2 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -371,12 +371,10 @@ inline std::ostream& operator<< (std::ostream& stream, const DSP<SampleType>& ds
 /// @ingroup DSP
 #define HART_DSP_FORBID_COPY_AND_MOVE \
     std::unique_ptr<DSP<SampleType>> copy() const override { \
-        static_assert(false, "This DSP cannot be copied"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This DSP cannot be copied", nullptr); \
     } \
     std::unique_ptr<DSP<SampleType>> move() override { \
-        static_assert(false, "This DSP cannot be moved"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This DSP cannot be moved", nullptr); \
     }
 
 }  // namespace hart
diff --git a/include/matchers/hart_matcher.hpp b/include/matchers/hart_matcher.hpp
index 78a1662..ffa5d50 100644
--- a/include/matchers/hart_matcher.hpp
+++ b/include/matchers/hart_matcher.hpp
@@ -139,12 +139,10 @@ inline std::ostream& operator<< (std::ostream& stream, const Matcher<SampleType>
 /// @ingroup Matchers
 #define HART_MATCHER_FORBID_COPY_AND_MOVE \
     std::unique_ptr<Matcher<SampleType>> copy() const override { \
-        static_assert (false, "This Matcher cannot be copied"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Matcher cannot be copied", nullptr); \
     } \
     std::unique_ptr<Matcher<SampleType>> move() override { \
-        static_assert (false, "This Matcher cannot be moved"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Matcher cannot be moved", nullptr); \
     }
 
 
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index e156b3d..0f5f8d5 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -376,10 +376,8 @@ Signal<SampleType>&& operator>> (Signal<SampleType>&& signal, std::unique_ptr<DS
 /// @ingroup Signals
 #define HART_SIGNAL_FORBID_COPY_AND_MOVE \
     std::unique_ptr<Signal<SampleType>> copy() const override { \
-        static_assert(false, "This Signal cannot be copied"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Signal cannot be copied", nullptr); \
     } \
     std::unique_ptr<Signal<SampleType>> move() override { \
-        static_assert(false, "This Signal cannot be moved"); \
-        return nullptr; \
+        HART_THROW_OR_RETURN (hart::UnsupportedError, "This Signal cannot be moved", nullptr); \
     }
-- 
2.43.0


From 9c9f1a07a4d3743c5155ab94c94454e0bbe4f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 30/56] fix: make checks compile for const matchers and
 references to abstract Matcher

---
 include/hart_process_audio.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index afcd57f..532b6d0 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -462,20 +462,24 @@ private:
 
     void addCheck (const Matcher<SampleType>& matcher, SignalAssertionLevel signalAssertionLevel, bool shouldPass)
     {
+        std::unique_ptr<Matcher<SampleType>> ownMatcher = matcher.copy();
         const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers
         auto& checksGroup =
-            (matcher.canOperatePerBlock() && ! forceFullSignal)
+            (ownMatcher->canOperatePerBlock() && ! forceFullSignal)
                 ? perBlockChecks
                 : fullSignalChecks;
         checksGroup.emplace_back (AudioTestBuilder::Check {
-            matcher.copy(),
+            std::move (ownMatcher),
             signalAssertionLevel,
             false,  // shouldSkip
             shouldPass
         });
     }
 
-    template <typename MatcherType>
+    template <
+        typename MatcherType,
+        typename = typename std::enable_if<! std::is_abstract<typename std::decay<MatcherType>::type>::value>::type
+        >
     void addCheck (MatcherType&& matcher, SignalAssertionLevel signalAssertionLevel, bool shouldPass)
     {
         using DecayedType = typename std::decay<MatcherType>::type;
@@ -483,13 +487,14 @@ private:
             std::is_base_of<Matcher<SampleType>, DecayedType>::value,
             "MatcherType must be a hart::Matcher subclass"
             );
+        std::unique_ptr<Matcher<SampleType>> ownMatcher = hart::make_unique<DecayedType> (std::forward<MatcherType> (matcher));
         const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers
         auto& checksGroup =
-            (matcher.canOperatePerBlock() && ! forceFullSignal)
+            (ownMatcher->canOperatePerBlock() && ! forceFullSignal)
                 ? perBlockChecks
                 : fullSignalChecks;
         checksGroup.emplace_back (AudioTestBuilder::Check {
-            hart::make_unique<DecayedType> (std::forward<MatcherType> (matcher)),
+            std::move (ownMatcher),
             signalAssertionLevel,
             false,  // shouldSkip
             shouldPass
-- 
2.43.0


From 6a63c2bf3ddeb8adfcee7a9439f2e4fcb2584b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 31/56] fix: do not hang on a large negative phase in SineWave

---
 include/signals/hart_sinewave.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/signals/hart_sinewave.hpp b/include/signals/hart_sinewave.hpp
index 6c13f28..b6ab690 100644
--- a/include/signals/hart_sinewave.hpp
+++ b/include/signals/hart_sinewave.hpp
@@ -56,6 +56,7 @@ public:
     void reset() override
     {
         m_phaseRadians = m_initialPhaseRadians;
+        clampPhase();
     }
 
     void represent (std::ostream& stream) const override
@@ -75,8 +76,8 @@ private:
 
     void clampPhase()
     {
-        while (m_phaseRadians < 0)
-            m_phaseRadians += hart::twoPi;
+        if (m_phaseRadians < 0)
+            m_phaseRadians = std::fmod (m_phaseRadians, hart::twoPi) + hart::twoPi;
 
         if (m_phaseRadians > hart::twoPi)
             m_phaseRadians = std::fmod (m_phaseRadians, hart::twoPi);
-- 
2.43.0


From 8406081f42ef747e4fd5ac520a5c9ba34b5a3a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 32/56] fix: report frames of failures from the start of the
 audio, like their timestamps

---
 include/hart_process_audio.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 532b6d0..2c5b8b3 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -568,12 +568,13 @@ private:
 
     void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock)
     {
-        const double timestampSeconds = static_cast<double> (offsetFrames + details.frame) / m_sampleRateHz;
+        const size_t frame = offsetFrames + details.frame;  // From the start of the audio, and not of the block
+        const double timestampSeconds = static_cast<double> (frame) / m_sampleRateHz;
         const SampleType sampleValue = observedAudioBlock[details.channel][details.frame];
 
         stream << std::endl
             << "Channel: " << details.channel << std::endl
-            << "Frame: " << details.frame << std::endl
+            << "Frame: " << frame << std::endl
             << secPrecision << "Timestamp: " << timestampSeconds << " seconds" << std::endl
             << linPrecision << "Sample value: " << sampleValue
             << dbPrecision << " (" << ratioToDecibels (std::abs (sampleValue)) << " dB)" << std::endl
-- 
2.43.0


From 6df2fb554e19a2224e29b43ab3654f2d6bfdfcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:14 +0000
Subject: [PATCH 33/56] fix: do not use invalid MS-ADPCM predictors of a wav
 file after rejecting them

---
 dependencies/dr_libs/dr_wav.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 46d0cbf..32a4fae 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -6281,6 +6281,12 @@ DRWAV_PRIVATE drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav
                 if (pWav->onRead(pWav->pUserData, header, sizeof(header)) != sizeof(header)) {
                     return totalFramesRead;
                 }
+
+                /* The predictor is used as an index into coeff1Table so we'll need to validate to ensure it never overflows. */
+                if (header[0] >= drwav_countof(coeff1Table)) {
+                    return totalFramesRead; /* Invalid file. */
+                }
+
                 pWav->msadpcm.bytesRemainingInBlock = pWav->fmt.blockAlign - sizeof(header);
 
                 pWav->msadpcm.predictor[0]     = header[0];
@@ -6290,17 +6296,18 @@ DRWAV_PRIVATE drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav
                 pWav->msadpcm.cachedFrames[2]  = pWav->msadpcm.prevFrames[0][0];
                 pWav->msadpcm.cachedFrames[3]  = pWav->msadpcm.prevFrames[0][1];
                 pWav->msadpcm.cachedFrameCount = 2;
-
-                /* The predictor is used as an index into coeff1Table so we'll need to validate to ensure it never overflows. */
-                if (pWav->msadpcm.predictor[0] >= drwav_countof(coeff1Table)) {
-                    return totalFramesRead; /* Invalid file. */
-                }
             } else {
                 /* Stereo. */
                 drwav_uint8 header[14];
                 if (pWav->onRead(pWav->pUserData, header, sizeof(header)) != sizeof(header)) {
                     return totalFramesRead;
                 }
+
+                /* The predictor is used as an index into coeff1Table so we'll need to validate to ensure it never overflows. */
+                if (header[0] >= drwav_countof(coeff1Table) || header[1] >= drwav_countof(coeff2Table)) {
+                    return totalFramesRead; /* Invalid file. */
+                }
+
                 pWav->msadpcm.bytesRemainingInBlock = pWav->fmt.blockAlign - sizeof(header);
 
                 pWav->msadpcm.predictor[0] = header[0];
@@ -6317,11 +6324,6 @@ DRWAV_PRIVATE drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav
                 pWav->msadpcm.cachedFrames[2] = pWav->msadpcm.prevFrames[0][1];
                 pWav->msadpcm.cachedFrames[3] = pWav->msadpcm.prevFrames[1][1];
                 pWav->msadpcm.cachedFrameCount = 2;
-
-                /* The predictor is used as an index into coeff1Table so we'll need to validate to ensure it never overflows. */
-                if (pWav->msadpcm.predictor[0] >= drwav_countof(coeff1Table) || pWav->msadpcm.predictor[1] >= drwav_countof(coeff2Table)) {
-                    return totalFramesRead; /* Invalid file. */
-                }
             }
         }
 
-- 
2.43.0


From acf8d9f0d8ab0c2bf05e6c324f22dff8c256b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 34/56] fix: do not overflow when reading wav files with
 invalid MS-ADPCM data

---
 dependencies/dr_libs/dr_wav.h | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 32a4fae..4bed4d1 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -6380,9 +6380,7 @@ DRWAV_PRIVATE drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav
                     newSample0  = drwav_clamp(newSample0, -32768, 32767);
 
                     pWav->msadpcm.delta[0] = (adaptationTable[((nibbles & 0xF0) >> 4)] * pWav->msadpcm.delta[0]) >> 8;
-                    if (pWav->msadpcm.delta[0] < 16) {
-                        pWav->msadpcm.delta[0] = 16;
-                    }
+                    pWav->msadpcm.delta[0] = drwav_clamp(pWav->msadpcm.delta[0], 16, 0x7FFFFFFF / 768);  /* Invalid files must not overflow it. */
 
                     pWav->msadpcm.prevFrames[0][0] = pWav->msadpcm.prevFrames[0][1];
                     pWav->msadpcm.prevFrames[0][1] = newSample0;
@@ -6393,9 +6391,7 @@ DRWAV_PRIVATE drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav
                     newSample1  = drwav_clamp(newSample1, -32768, 32767);
 
                     pWav->msadpcm.delta[0] = (adaptationTable[((nibbles & 0x0F) >> 0)] * pWav->msadpcm.delta[0]) >> 8;
-                    if (pWav->msadpcm.delta[0] < 16) {
-                        pWav->msadpcm.delta[0] = 16;
-                    }
+                    pWav->msadpcm.delta[0] = drwav_clamp(pWav->msadpcm.delta[0], 16, 0x7FFFFFFF / 768);  /* Invalid files must not overflow it. */
 
                     pWav->msadpcm.prevFrames[0][0] = pWav->msadpcm.prevFrames[0][1];
                     pWav->msadpcm.prevFrames[0][1] = newSample1;
@@ -6415,9 +6411,7 @@ DRWAV_PRIVATE drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav
                     newSample0  = drwav_clamp(newSample0, -32768, 32767);
 
                     pWav->msadpcm.delta[0] = (adaptationTable[((nibbles & 0xF0) >> 4)] * pWav->msadpcm.delta[0]) >> 8;
-                    if (pWav->msadpcm.delta[0] < 16) {
-                        pWav->msadpcm.delta[0] = 16;
-                    }
+                    pWav->msadpcm.delta[0] = drwav_clamp(pWav->msadpcm.delta[0], 16, 0x7FFFFFFF / 768);  /* Invalid files must not overflow it. */
 
                     pWav->msadpcm.prevFrames[0][0] = pWav->msadpcm.prevFrames[0][1];
                     pWav->msadpcm.prevFrames[0][1] = newSample0;
@@ -6429,9 +6423,7 @@ DRWAV_PRIVATE drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav
                     newSample1  = drwav_clamp(newSample1, -32768, 32767);
 
                     pWav->msadpcm.delta[1] = (adaptationTable[((nibbles & 0x0F) >> 0)] * pWav->msadpcm.delta[1]) >> 8;
-                    if (pWav->msadpcm.delta[1] < 16) {
-                        pWav->msadpcm.delta[1] = 16;
-                    }
+                    pWav->msadpcm.delta[1] = drwav_clamp(pWav->msadpcm.delta[1], 16, 0x7FFFFFFF / 768);  /* Invalid files must not overflow it. */
 
                     pWav->msadpcm.prevFrames[1][0] = pWav->msadpcm.prevFrames[1][1];
                     pWav->msadpcm.prevFrames[1][1] = newSample1;
-- 
2.43.0


From 4d2219873045a00b4346011c098c5988c56ee9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:29 +0000
Subject: [PATCH 35/56] fix: do not abort on big-endian wav files with uncommon
 sample sizes

---
 dependencies/dr_libs/dr_wav.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 4bed4d1..1cdf6f0 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -1731,8 +1731,17 @@ static DRWAV_INLINE void drwav__bswap_samples(void* pSamples, drwav_uint64 sampl
         } break;
         default:
         {
-            /* Unsupported format. */
-            DRWAV_ASSERT(DRWAV_FALSE);
+            /* Uncommon sample sizes come from the file, so they can be anything. */
+            drwav_uint64 iSample;
+            for (iSample = 0; iSample < sampleCount; iSample += 1) {
+                drwav_uint8* pSample = (drwav_uint8*)pSamples + iSample * bytesPerSample;
+                drwav_uint32 iByte;
+                for (iByte = 0; iByte < bytesPerSample / 2; iByte += 1) {
+                    drwav_uint8 t = pSample[iByte];
+                    pSample[iByte] = pSample[bytesPerSample - 1 - iByte];
+                    pSample[bytesPerSample - 1 - iByte] = t;
+                }
+            }
         } break;
     }
 }
-- 
2.43.0


From 0f1393407a5aa3ebb16840c35429d49b5e018699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:26 +0000
Subject: [PATCH 36/56] fix: do not hang on wav files with invalid chunk sizes

---
 dependencies/dr_libs/dr_wav.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 1cdf6f0..7483d59 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -1980,6 +1980,10 @@ DRWAV_PRIVATE drwav_result drwav__read_chunk_header(drwav_read_proc onRead, void
             return DRWAV_INVALID_FILE;
         }
 
+        if (drwav_bytes_to_u64(sizeInBytes) < 24) {
+            return DRWAV_INVALID_FILE;
+        }
+
         pHeaderOut->sizeInBytes = drwav_bytes_to_u64(sizeInBytes) - 24;    /* <-- Subtract 24 because w64 includes the size of the header. */
         pHeaderOut->paddingSize = drwav__chunk_padding_size_w64(pHeaderOut->sizeInBytes);
         *pRunningBytesReadOut += 24;
@@ -1993,6 +1997,12 @@ DRWAV_PRIVATE drwav_result drwav__read_chunk_header(drwav_read_proc onRead, void
 DRWAV_PRIVATE drwav_bool32 drwav__seek_forward(drwav_seek_proc onSeek, drwav_uint64 offset, void* pUserData)
 {
     drwav_uint64 bytesRemainingToSeek = offset;
+
+    /* No file is this big, so it comes from an invalid chunk size. Seeking in small steps would practically never end. */
+    if (offset > ((drwav_uint64)1 << 48)) {
+        return DRWAV_FALSE;
+    }
+
     while (bytesRemainingToSeek > 0) {
         if (bytesRemainingToSeek > 0x7FFFFFFF) {
             if (!onSeek(pUserData, 0x7FFFFFFF, DRWAV_SEEK_CUR)) {
@@ -3365,7 +3375,11 @@ DRWAV_PRIVATE drwav_bool32 drwav_init__internal(drwav* pWav, drwav_chunk_proc on
                 }
 
                 /* Seek past any leftover bytes. For w64 the leftover will be defined based on the chunk size. */
-                if (pWav->onSeek(pWav->pUserData, (int)(header.sizeInBytes - bytesReadSoFar), DRWAV_SEEK_CUR) == DRWAV_FALSE) {
+                if (header.sizeInBytes >= (drwav_uint64)bytesReadSoFar) {
+                    if (drwav__seek_forward(pWav->onSeek, header.sizeInBytes - bytesReadSoFar, pWav->pUserData) == DRWAV_FALSE) {
+                        return DRWAV_FALSE;
+                    }
+                } else if (pWav->onSeek(pWav->pUserData, (int)(header.sizeInBytes - bytesReadSoFar), DRWAV_SEEK_CUR) == DRWAV_FALSE) {
                     return DRWAV_FALSE;
                 }
                 cursor += (header.sizeInBytes - bytesReadSoFar);
-- 
2.43.0


From fd1005f30528e8d372832e694a53e701fe25cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 37/56] fix: do not overflow the buffer of wav files with
 invalid sample counts

---
 dependencies/dr_libs/dr_wav.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 7483d59..4ba0a92 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -8070,6 +8070,11 @@ DRWAV_PRIVATE drwav_int16* drwav__read_pcm_frames_and_close_s16(drwav* pWav, uns
 
     DRWAV_ASSERT(pWav != NULL);
 
+    if (pWav->totalPCMFrameCount > DRWAV_SIZE_MAX / pWav->channels / sizeof(drwav_int16)) {
+        drwav_uninit(pWav);
+        return NULL;    /* File's too big, or its sample count is invalid. */
+    }
+
     sampleDataSize = pWav->totalPCMFrameCount * pWav->channels * sizeof(drwav_int16);
     if (sampleDataSize > DRWAV_SIZE_MAX) {
         drwav_uninit(pWav);
@@ -8112,6 +8117,11 @@ DRWAV_PRIVATE float* drwav__read_pcm_frames_and_close_f32(drwav* pWav, unsigned
 
     DRWAV_ASSERT(pWav != NULL);
 
+    if (pWav->totalPCMFrameCount > DRWAV_SIZE_MAX / pWav->channels / sizeof(float)) {
+        drwav_uninit(pWav);
+        return NULL;    /* File's too big, or its sample count is invalid. */
+    }
+
     sampleDataSize = pWav->totalPCMFrameCount * pWav->channels * sizeof(float);
     if (sampleDataSize > DRWAV_SIZE_MAX) {
         drwav_uninit(pWav);
@@ -8154,6 +8164,11 @@ DRWAV_PRIVATE drwav_int32* drwav__read_pcm_frames_and_close_s32(drwav* pWav, uns
 
     DRWAV_ASSERT(pWav != NULL);
 
+    if (pWav->totalPCMFrameCount > DRWAV_SIZE_MAX / pWav->channels / sizeof(drwav_int32)) {
+        drwav_uninit(pWav);
+        return NULL;    /* File's too big, or its sample count is invalid. */
+    }
+
     sampleDataSize = pWav->totalPCMFrameCount * pWav->channels * sizeof(drwav_int32);
     if (sampleDataSize > DRWAV_SIZE_MAX) {
         drwav_uninit(pWav);
-- 
2.43.0


From ee0c0d94ad03bdee79f0e01f9773ba4d7f750d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:19 +0000
Subject: [PATCH 38/56] fix: round to the nearest in roundToSizeT() where
 adding a half is inexact

---
 include/hart_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_utils.hpp b/include/hart_utils.hpp
index 47bbe9d..bea3dcc 100644
--- a/include/hart_utils.hpp
+++ b/include/hart_utils.hpp
@@ -81,7 +81,7 @@ inline static SampleType floatsNotEqual (SampleType a, SampleType b, SampleType
 template <typename SampleType>
 inline static size_t roundToSizeT (SampleType x)
 {
-    return static_cast<size_t> (x + (SampleType) 0.5);
+    return static_cast<size_t> (std::round (x));  // Adding 0.5 would be rounded itself
 }
 
 /// @brief Keeps phase in 0..twoPi range
-- 
2.43.0


From c18375338351e2dca524e545c01c53aba4340b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 39/56] fix: plot the lines of silent audio

---
 include/hart_plot.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 2097ac3..5e898d9 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -27,10 +27,13 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
     inputSignalPlot.title ("Input audio");
     outputSignalPlot.title ("Output audio");
 
+    // Silence needs some range of values as well, otherwise its lines can't be placed
     const SampleType inputSamplePeak = input.getMagnitude (0, input.getNumFrames());
-    inputSignalPlot.y.minor (inputSamplePeak).minor (-inputSamplePeak);
+    const SampleType inputRange = inputSamplePeak == (SampleType) 0 ? (SampleType) 1 : inputSamplePeak;
+    inputSignalPlot.y.minor (inputRange).minor (-inputRange);
     const SampleType outputSamplePeak = output.getMagnitude (0, output.getNumFrames());
-    outputSignalPlot.y.minor (outputSamplePeak).minor (-outputSamplePeak);
+    const SampleType outputRange = outputSamplePeak == (SampleType) 0 ? (SampleType) 1 : outputSamplePeak;
+    outputSignalPlot.y.minor (outputRange).minor (-outputRange);
 
     for (double t = 0.1; t < bufferSizeSeconds + 1e-6; t += 0.1)
     {
-- 
2.43.0


From 3d9527045704b3c6a3d9d33740183af130a35630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 40/56] fix: plot the lines of audio that is only one frame
 long

---
 include/hart_plot.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 5e898d9..ba339f7 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -22,8 +22,8 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
 
     inputSignalPlot.y.major (0).label ("Value");
     outputSignalPlot.y.major (0).label ("Value");
-    inputSignalPlot.x.major (0);
-    outputSignalPlot.x.major (0).label("Time (s)");
+    inputSignalPlot.x.linear (0.0, bufferSizeSeconds).major (0);
+    outputSignalPlot.x.linear (0.0, bufferSizeSeconds).major (0).label("Time (s)");
     inputSignalPlot.title ("Input audio");
     outputSignalPlot.title ("Output audio");
 
-- 
2.43.0


From 7d8aba2efa7873092a46b729241b9ab43e70d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 41/56] fix: refuse sample rates and durations that are not
 finite numbers

---
 include/hart_process_audio.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 2c5b8b3..8217e92 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -78,7 +78,7 @@ public:
     /// @param sampleRateHz Sample rate in Hz. You can use frequency-related literails from @ref Units.
     AudioTestBuilder& withSampleRate (double sampleRateHz)
     {
-        if (sampleRateHz <= 0)
+        if (! (sampleRateHz > 0) || std::isinf (sampleRateHz))
             HART_THROW_OR_RETURN (hart::ValueError, "Sample rate should be a positive value in Hz", *this);
 
         if (! m_processor->supportsSampleRate (sampleRateHz))
@@ -114,7 +114,7 @@ public:
     /// @param Duration of the signal in seconds. You can use time-related literails from @ref Units.
     AudioTestBuilder& withDuration (double durationSeconds)
     {
-        if (durationSeconds < 0)
+        if (! (durationSeconds >= 0) || std::isinf (durationSeconds))
             HART_THROW_OR_RETURN(hart::ValueError, "Signal duration should be a non-negative value in Hz", *this);
 
         m_durationSeconds = durationSeconds;
-- 
2.43.0


From 7ebe5caa9914c86ed9a106ddee93b5c6bff09c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 42/56] fix: reject SineSweep durations and frequencies that
 are not numbers

---
 include/signals/hart_sine_sweep.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index 769c0aa..66ab60b 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -61,10 +61,10 @@ public:
         m_isFixedFrequency (floatsEqual (m_startFrequencyHz, m_endFrequencyHz)),
         m_frequencyRatio (m_endFrequencyHz / m_startFrequencyHz)
     {
-        if (durationSeconds < 0)
+        if (! (durationSeconds >= 0) || std::isinf (durationSeconds))
             HART_THROW_OR_RETURN_VOID (hart::ValueError, "Duration cannot be negative");
 
-        if (startFrequencyHz <= 0 || endFrequencyHz <= 0)
+        if (! (startFrequencyHz > 0) || ! (endFrequencyHz > 0))
             HART_THROW_OR_RETURN_VOID (hart::ValueError, "Frequencies must be positive");
     }
 
-- 
2.43.0


From 6f813fe8e8d8bb4cad48dbec8d548482234edeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 43/56] fix: reject a SineWave frequency that is not a number

---
 include/signals/hart_sinewave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sinewave.hpp b/include/signals/hart_sinewave.hpp
index b6ab690..13fdf0a 100644
--- a/include/signals/hart_sinewave.hpp
+++ b/include/signals/hart_sinewave.hpp
@@ -26,7 +26,7 @@ public:
         {
             clampPhase();
 
-            if (frequencyHz <= 0)
+            if (! (frequencyHz > 0))
                 HART_THROW (hart::ValueError, "Invalid frequency value");
         }
 
-- 
2.43.0


From 58e5c52f36aad11462f65d90f38b7f1bb600f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 44/56] fix: make floatsNotEqual() the opposite of
 floatsEqual() for NaNs and infinities

---
 include/hart_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_utils.hpp b/include/hart_utils.hpp
index bea3dcc..c7eea77 100644
--- a/include/hart_utils.hpp
+++ b/include/hart_utils.hpp
@@ -74,7 +74,7 @@ inline static SampleType floatsEqual (SampleType a, SampleType b, SampleType eps
 template <typename SampleType>
 inline static SampleType floatsNotEqual (SampleType a, SampleType b, SampleType epsilon = (SampleType) 1e-8)
 {
-    return std::abs (a - b) >= epsilon;
+    return ! floatsEqual (a, b, epsilon);  // True for NaNs
 }
 
 /// @brief Rounds a floating point value to a `size_t` value
-- 
2.43.0


From 5b6ce6d626b1fb57cfd3aee93f3cf7ab85fd2292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 45/56] fix: skip the whole padding of the chunks of Wave64
 files

---
 dependencies/dr_libs/dr_wav.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 4ba0a92..820e2dd 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -1945,7 +1945,7 @@ DRWAV_PRIVATE unsigned int drwav__chunk_padding_size_riff(drwav_uint64 chunkSize
 
 DRWAV_PRIVATE unsigned int drwav__chunk_padding_size_w64(drwav_uint64 chunkSize)
 {
-    return (unsigned int)(chunkSize % 8);
+    return (unsigned int)((8 - (chunkSize % 8)) % 8);
 }
 
 DRWAV_PRIVATE drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav_uint64 samplesToRead, drwav_int16* pBufferOut);
-- 
2.43.0


From 16c4b4defeec232317a42670fa945c6fdb4908dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 46/56] fix: do not invert the A-law and mu-law samples of
 AIFF-C files

---
 dependencies/dr_libs/dr_wav.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index 820e2dd..b07950b 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -5968,7 +5968,7 @@ DRWAV_API drwav_uint64 drwav_read_pcm_frames(drwav* pWav, drwav_uint64 framesToR
     */
     post_process:
     {
-        if (pWav->container == drwav_container_aiff && pWav->bitsPerSample == 8 && pWav->aiff.isUnsigned == DRWAV_FALSE) {
+        if (pWav->container == drwav_container_aiff && pWav->translatedFormatTag == DR_WAVE_FORMAT_PCM && pWav->bitsPerSample == 8 && pWav->aiff.isUnsigned == DRWAV_FALSE) {
             if (pBufferOut != NULL) {
                 drwav_uint64 iSample;
 
-- 
2.43.0


From b069600dba69e3d2bd70c12cefe27e78afd69566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 47/56] fix: do not count the header of an AIFF sound chunk as
 audio

---
 dependencies/dr_libs/dr_wav.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index b07950b..eb61b26 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -3600,8 +3600,8 @@ DRWAV_PRIVATE drwav_bool32 drwav_init__internal(drwav* pWav, drwav_chunk_proc on
 
             /* The data chunk size needs to be reduced by the offset or else seeking will break. */
             dataChunkSize = chunkSize;
-            if (dataChunkSize  > offset) {
-                dataChunkSize -= offset;
+            if (dataChunkSize  > (drwav_uint64)offset + sizeof(offsetAndBlockSizeData)) {
+                dataChunkSize -= (drwav_uint64)offset + sizeof(offsetAndBlockSizeData);
             } else {
                 dataChunkSize = 0;
             }
-- 
2.43.0


From b1eb6194dd45729d28d47f08f427711db1c8b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 48/56] fix: read the sample rate of AIFF files of 1 Hz

---
 dependencies/dr_libs/dr_wav.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index eb61b26..a0e4057 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -1817,12 +1817,14 @@ DRWAV_PRIVATE drwav_int64 drwav_aiff_extented_to_s64(const drwav_uint8* data)
         return sign ? DRWAV_INT64_MIN : DRWAV_INT64_MAX;    /* Infinite. */
     }
 
+    if (exponent < 16383) {
+        return 0;  /* Number is less than 1, so rounds down to 0. */
+    }
+
     exponent -= 16383;
 
     if (exponent > 63) {
         return sign ? DRWAV_INT64_MIN : DRWAV_INT64_MAX;    /* Too big for a 64-bit integer. */
-    } else if (exponent < 1) {
-        return 0;  /* Number is less than 1, so rounds down to 0. */
     }
 
     significand >>= (63 - exponent);
-- 
2.43.0


From 24673a8fc8d87c4ee88eb70216f3d0ce2a63a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 49/56] fix: do not cut off the peaks of long plots

---
 dependencies/signalsmith/plot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependencies/signalsmith/plot.h b/dependencies/signalsmith/plot.h
index 3ba7f6a..671ee8d 100644
--- a/dependencies/signalsmith/plot.h
+++ b/dependencies/signalsmith/plot.h
@@ -464,7 +464,7 @@ public:
 				// Approximate the pending point as being on the line from last-drawn point -> current
 				double d1 = std::hypot(prevPoint.x - lastDrawn.x, prevPoint.y - lastDrawn.y);
 				double d2 = std::hypot(x - lastDrawn.x, y - lastDrawn.y);
-				double scale = d2 ? d1/d2 : 0;
+				double scale = d2 ? std::min(1.0, d1/d2) : 0; // not beyond the current point
 				double extX = lastDrawn.x + (x - lastDrawn.x)*scale;
 				double extY = lastDrawn.y + (y - lastDrawn.y)*scale;
 				// How far off would that be?
-- 
2.43.0


From 305ec788a25588dd8f50f9fb21a634bcf44885ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 50/56] fix: AIFF files announcing many channels of many bits
 no longer overflow an int when opened

---
 dependencies/dr_libs/dr_wav.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index a0e4057..ae1ab8b 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -3550,7 +3550,7 @@ DRWAV_PRIVATE drwav_bool32 drwav_init__internal(drwav* pWav, drwav_chunk_proc on
             fmt.channels       = channels;
             fmt.sampleRate     = (drwav_uint32)sampleRate;
             fmt.bitsPerSample  = sampleSizeInBits;
-            fmt.blockAlign     = (drwav_uint16)(fmt.channels * fmt.bitsPerSample / 8);
+            fmt.blockAlign     = (drwav_uint16)((drwav_uint32)fmt.channels * fmt.bitsPerSample / 8);
             fmt.avgBytesPerSec = fmt.blockAlign * fmt.sampleRate;
 
             if (fmt.blockAlign == 0 && compressionFormat == DR_WAVE_FORMAT_DVI_ADPCM) {
-- 
2.43.0


From 0cbf888f94a0643f7f405932190c1f1bc8627332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:51 +0000
Subject: [PATCH 51/56] fix: AIFF samples of 9 to 31 bits are read as the whole
 bytes they occupy

---
 dependencies/dr_libs/dr_wav.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dependencies/dr_libs/dr_wav.h b/dependencies/dr_libs/dr_wav.h
index ae1ab8b..a516b23 100644
--- a/dependencies/dr_libs/dr_wav.h
+++ b/dependencies/dr_libs/dr_wav.h
@@ -3568,8 +3568,8 @@ DRWAV_PRIVATE drwav_bool32 drwav_init__internal(drwav* pWav, drwav_chunk_proc on
                 }
             }
 
-            /* In AIFF, samples are padded to 8 byte boundaries. We need to round up our bits per sample here. */
-            fmt.bitsPerSample += (fmt.bitsPerSample & 7);
+            /* In AIFF, samples are padded to 8 bit boundaries. We need to round up our bits per sample here. */
+            fmt.bitsPerSample = (drwav_uint16)((fmt.bitsPerSample + 7) & ~7);
 
 
             /* If the form type is AIFC there will be some additional data in the chunk. We need to seek past it. */
-- 
2.43.0


From aafd3fa5a9471e6145119d376eb920ce2eaffa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 52/56] fix: plots are valid SVG whatever the global locale of
 the program

---
 dependencies/signalsmith/plot.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dependencies/signalsmith/plot.h b/dependencies/signalsmith/plot.h
index 671ee8d..c0e6e39 100644
--- a/dependencies/signalsmith/plot.h
+++ b/dependencies/signalsmith/plot.h
@@ -10,6 +10,7 @@
 #include <vector>
 #include <cmath>
 #include <sstream>
+#include <locale>
 
 namespace signalsmith { namespace plot {
 
@@ -678,6 +679,7 @@ public:
 
 		svg.raw("<style>");
 		std::stringstream cssStream;
+		cssStream.imbue(std::locale::classic());
 		style.css(cssStream);
 		addCompactCss(style.cssPrefix + cssStream.str());
 		svg.raw("</style>");
@@ -695,6 +697,7 @@ public:
 	}
 	void write(const std::string &svgFile, const PlotStyle &style) {
 		std::ofstream s(svgFile);
+		s.imbue(std::locale::classic()); // SVG knows no other decimal points
 		write(s, style);
 	}
 	// If we aren't given a style, use the default one
@@ -737,7 +740,10 @@ struct Tick {
 
 	template<typename T>
 	Tick(T v) : value(double(v)) {
-		name = (std::stringstream() << value).str();
+		std::stringstream nameStream;
+		nameStream.imbue(std::locale::classic());
+		nameStream << value;
+		name = nameStream.str();
 	}
 };
 
-- 
2.43.0


From 8c653970bb48adbda6185a1b0a57ff05b83af4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 53/56] fix: roundToSizeT() has defined results for values that
 size_t cannot hold

---
 include/hart_utils.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/hart_utils.hpp b/include/hart_utils.hpp
index c7eea77..d951321 100644
--- a/include/hart_utils.hpp
+++ b/include/hart_utils.hpp
@@ -81,7 +81,16 @@ inline static SampleType floatsNotEqual (SampleType a, SampleType b, SampleType
 template <typename SampleType>
 inline static size_t roundToSizeT (SampleType x)
 {
-    return static_cast<size_t> (std::round (x));  // Adding 0.5 would be rounded itself
+    const SampleType rounded = std::round (x);  // Adding 0.5 would be rounded itself
+
+    if (! (rounded > 0))
+        return 0;
+
+    // Converting a value that size_t cannot hold would be undefined
+    if (rounded >= std::ldexp (static_cast<SampleType> (1), std::numeric_limits<size_t>::digits))
+        return std::numeric_limits<size_t>::max();
+
+    return static_cast<size_t> (rounded);
 }
 
 /// @brief Keeps phase in 0..twoPi range
-- 
2.43.0


From 33401cb01f61118751d72f1fb022851239b87f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 54/56] fix: refuse durations with more frames than can be
 counted

---
 include/hart_process_audio.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 8217e92..89a26cb 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <cmath>
 #include <iomanip>
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <vector>
@@ -332,7 +333,12 @@ public:
     /// @details Call this after setting all the test parameters
     std::unique_ptr<DSP<SampleType>> process()
     {
-        m_durationFrames = (size_t) std::round (m_sampleRateHz * m_durationSeconds);
+        const double durationFrames = std::round (m_sampleRateHz * m_durationSeconds);
+
+        if (durationFrames >= static_cast<double> (std::numeric_limits<size_t>::max()))
+            HART_THROW_OR_RETURN (hart::SizeError, "The signal is too long", std::move (m_processor));
+
+        m_durationFrames = static_cast<size_t> (durationFrames);
 
         if (m_durationFrames == 0)
             HART_THROW_OR_RETURN (hart::SizeError, "Nothing to process", std::move (m_processor));
-- 
2.43.0


From d0da0bbb3565c2ae096c70484b27d78c27b9b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 55/56] fix: refuse sample rates that the header of a wav file
 cannot hold

---
 include/hart_wavwriter.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hart_wavwriter.hpp b/include/hart_wavwriter.hpp
index 15a4bad..c37d09d 100644
--- a/include/hart_wavwriter.hpp
+++ b/include/hart_wavwriter.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cmath>  // delete me
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -23,6 +24,9 @@ public:
         const size_t numFrames = buffer.getNumFrames();
         const size_t numChannels = buffer.getNumChannels();
 
+        if (! (sampleRateHz >= 0 && sampleRateHz <= static_cast<double> (std::numeric_limits<drwav_uint32>::max())))
+            HART_THROW_OR_RETURN_VOID (hart::UnsupportedError, "Wav files cannot store this sample rate");
+
         drwav drWavHandle;
         drwav_data_format drWavFormat;
         drWavFormat.container = drwav_container_riff;
-- 
2.43.0


From cb5d7fb74aca11f06d53b6ee19bd1a9aae9c1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:50 +0000
Subject: [PATCH 56/56] fix: round the sample rate of wav files instead of
 truncating it

---
 include/hart_wavwriter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_wavwriter.hpp b/include/hart_wavwriter.hpp
index c37d09d..7bddfe6 100644
--- a/include/hart_wavwriter.hpp
+++ b/include/hart_wavwriter.hpp
@@ -31,7 +31,7 @@ public:
         drwav_data_format drWavFormat;
         drWavFormat.container = drwav_container_riff;
         drWavFormat.channels = static_cast<drwav_uint16> (numChannels);
-        drWavFormat.sampleRate = static_cast<drwav_uint32> (sampleRateHz);
+        drWavFormat.sampleRate = static_cast<drwav_uint32> (std::round (sampleRateHz));
 
         switch (wavFormat)
         {
-- 
2.43.0

