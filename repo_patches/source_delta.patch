From a3323434d017cf1a29d915ef5de83d0bb16972e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 01/20] fix: keep the separator after leading '..' components
 when normalizing paths

---
 src/Utilities.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cxx b/src/Utilities.cxx
index af67bef..f354a9e 100644
--- a/src/Utilities.cxx
+++ b/src/Utilities.cxx
@@ -627,7 +627,7 @@ std::string k8psh::Utilities::normalizePath(const std::string &path)
 		{
 			directories.push_back(newPath.length());
 
-			if (directories.size() > 1)
+			if (!newPath.empty() && !isPathSeparator(newPath[newPath.length() - 1]))
 				newPath += PATH_SEPARATOR;
 
 			newPath += path.substr(start, i - start);
-- 
2.43.0


From 2644129899ca2689727027fd427b7d8d7c29a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 02/20] fix: decode the letters of \x escapes in configuration
 strings as hex digits

---
 src/Configuration.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index da9de39..ea39635 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -28,11 +28,11 @@ static char parseHexValue(char c)
 	if (c >= '0' && c <= '9')
 		return c - '0';
 	else if (c >= 'a' && c <= 'f')
-		return c - 'a';
+		return c - 'a' + 10;
 	else if (!(c >= 'A' && c <= 'F'))
 		LOG_ERROR << "Invalid hex character in configuration: " << c;
 
-	return c - 'A';
+	return c - 'A' + 10;
 }
 
 // Parses a string from the configuration.
-- 
2.43.0


From 71c847e2d878f8cd5c7f9cee8e17353dcc9b971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 03/20] fix: reject a section without a port after port 65535
 instead of using port 0

---
 src/Configuration.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index ea39635..20e3f76 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -237,7 +237,7 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 
 	// Parse server settings
 	std::shared_ptr<Host> currentHost;
-	unsigned short currentPort = DEFAULT_STARTING_PORT;
+	unsigned long nextPort = DEFAULT_STARTING_PORT;
 	std::vector<std::pair<std::string, std::string> > environmentVariables;
 
 	for (;;)
@@ -272,12 +272,14 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 				if (portValue >= 65536)
 					LOG_ERROR << "Port out of range: " << portValue;
 
-				currentPort = static_cast<unsigned short>(portValue);
+				nextPort = portValue;
 			}
+			else if (nextPort >= 65536)
+				LOG_ERROR << "Default port out of range: " << nextPort;
 
 			// Assign the new host information
 			currentHost->_hostname = host.substr(0, colon);
-			currentHost->_port = currentPort++;
+			currentHost->_port = static_cast<unsigned short>(nextPort++);
 
 			// Parse the options for environment variables
 			environmentVariables.clear();
-- 
2.43.0


From 09ec72d7aa3b47aeecccbdcfb7e555d72ba6e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 04/20] fix: reject a host section that has a port but no host
 name

---
 src/Configuration.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index 20e3f76..c9d7ee8 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -257,7 +257,9 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 			// Parse the port
 			std::size_t colon = host.find(":");
 
-			if (colon != std::string::npos)
+			if (colon == 0)
+				LOG_ERROR << "Expecting hostname before port, but found \"" << host << '"';
+			else if (colon != std::string::npos)
 			{
 				std::string port = host.substr(colon + 1);
 
-- 
2.43.0


From eefcc06c21d4f688534aed416f7ef752934dc28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 05/20] fix: reject connectTimeoutMs values with text after the
 number

---
 src/Configuration.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index c9d7ee8..472f9d7 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -227,8 +227,13 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 				configuration._baseDirectory = Utilities::normalizePath(Utilities::isAbsolutePath(value) ? value : Utilities::getAbsolutePath(absoluteWorkingPath + '/' + value));
 			else if (key == "connectTimeoutMs")
 			{
-				try { configuration._connectTimeoutMs = std::stoll(value); }
+				std::size_t parsed = 0;
+
+				try { configuration._connectTimeoutMs = std::stoll(value, &parsed); }
 				catch (const std::exception &e) { LOG_ERROR << "Failed to parse connectTimeoutMs (" << value << "): " << e.what(); }
+
+				if (parsed != value.length())
+					LOG_ERROR << "Failed to parse connectTimeoutMs (" << value << "): Unexpected characters after the number";
 			}
 			else
 				LOG_ERROR << "Unrecognized configuration key \"" << key << '"';
-- 
2.43.0


From e2bbd54dc74d4fe6267126302addb7540ee871f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 06/20] fix: consume standard input data received after the
 process has closed its input

---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 012137c..c80cef4 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -905,7 +905,10 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 							LOG_DEBUG << "Received stdin data (" << payloadValue << " bytes) from client";
 
 							if (stdInPipe.getInput() == Pipe::INVALID_HANDLE)
+							{
 								LOG_DEBUG << "Ignoring " << payloadValue << " received bytes due to closed stdin"; // Ignore data on stdin after close
+								(void)receiveSocket.readString(payloadValue);
+							}
 							else if (!payloadValue)
 								closeStdIn = true;
 							else
-- 
2.43.0


From bff1391f065b4bf0e2082208aee3015500e1416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 07/20] fix: terminate the process whenever its session ends
 before it has been reaped, and never after

---
 src/Process.cxx | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index c80cef4..9aa9d04 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -457,6 +457,30 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 static std::mutex workingDirectoryMutex;
 #endif
 
+#ifndef _WIN32
+// Terminates the process when the session ends (for any reason) before the process has been reaped
+class ProcessTerminator
+{
+	pid_t _process;
+
+	// Process terminators cannot be copied
+	ProcessTerminator(const ProcessTerminator&);
+	ProcessTerminator &operator=(const ProcessTerminator&);
+
+public:
+	ProcessTerminator(pid_t process) : _process(process) { }
+
+	~ProcessTerminator()
+	{
+		if (_process > 0)
+			(void)kill(_process, 15); // Send TERM
+	}
+
+	// Releases the process after it has been reaped
+	void release() { _process = 0; }
+};
+#endif
+
 /** Runs the process requested by the remote socket channel.
  *
  * @param workingDirectory the relative working directory used to start the process
@@ -758,6 +782,8 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			signal(SIGPIPE, SIG_IGN);
 			break;
 		}
+
+		ProcessTerminator processTerminator(process);
 #endif
 
 		stdInPipe.closeOutput();
@@ -816,6 +842,9 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				stdInData.clear();
 				stdInPipe.closeInput();
 				processHasExited = true;
+#ifndef _WIN32
+				processTerminator.release();
+#endif
 			}
 
 #ifndef _WIN32
@@ -920,8 +949,6 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 					default:
 #ifdef _WIN32
 						(void)TerminateProcess(process, UINT(-1));
-#else
-						(void)kill(process, 15); // Send TERM
 #endif
 
 						if (!dataReceived)
@@ -985,6 +1012,8 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				if (pid < 0 && errno != EINTR)
 					LOG_ERROR << "Failed to get exit code of process: " << errno;
 			}
+
+			processTerminator.release();
 		}
 
 		if (WIFEXITED(exitStatus)) // Only send exit code on normal termination
-- 
2.43.0


From 6e56575ab890cb8bfa1be0fc43bfbe1e360f4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 08/20] fix: terminate a process that closed its streams when
 the client goes away

---
 src/Process.cxx | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 9aa9d04..a276c58 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -814,6 +814,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		waitSet[3] = process;
 #else
 		int exitStatus = 0;
+		int exitPollMs = 1; // Once all output is closed, the process is checked with increasing delays so that it is still terminated if the client goes away
 		struct pollfd pollSet[4] = { };
 
 		pollSet[0].events = POLLOUT;
@@ -824,7 +825,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		pollSet[3].events = POLLIN;
 #endif
 
-		while (stdInPipe.getInput() != Pipe::INVALID_HANDLE || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE || stdErrPipe.getOutput() != Pipe::INVALID_HANDLE)
+		while (!processHasExited || stdInPipe.getInput() != Pipe::INVALID_HANDLE || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE || stdErrPipe.getOutput() != Pipe::INVALID_HANDLE)
 		{
 			// Check for new data
 #ifdef _WIN32
@@ -849,12 +850,21 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 
 #ifndef _WIN32
 			int pollResult;
+			int pollMs = 250;
+
+			if (receiveSocket.hasBufferedData())
+				pollMs = 0;
+			else if (!processHasExited && stdOutPipe.getOutput() == Pipe::INVALID_HANDLE && stdErrPipe.getOutput() == Pipe::INVALID_HANDLE)
+			{
+				pollMs = exitPollMs;
+				exitPollMs = exitPollMs < 125 ? exitPollMs * 2 : 250;
+			}
 
 			pollSet[0].fd = stdInData.empty() ? Pipe::INVALID_HANDLE : stdInPipe.getInput(); // Only wait on the stdin pipe if there is data ready to be sent to it
 			pollSet[1].fd = stdOutPipe.getOutput();
 			pollSet[2].fd = stdErrPipe.getOutput();
 
-			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : 250);
+			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), pollMs);
 			while (pollResult < 0 && (errno == EAGAIN || errno == EINTR));
 
 			if (pollResult < 0)
@@ -985,12 +995,8 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			}
 		}
 
-		// Wait for application to exit
-		if (!processHasExited)
-			LOG_DEBUG << "Waiting for process to terminate";
-
+		// Send the exit code of the application
 #ifdef _WIN32
-		if (processHasExited || WaitForSingleObject(process, INFINITE) == WAIT_OBJECT_0)
 		{
 			DWORD exitCode = 0;
 
@@ -1001,21 +1007,6 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			}
 		}
 #else
-		if (!processHasExited)
-		{
-			pid_t pid = 0;
-
-			while (pid <= 0 || !(WIFEXITED(exitStatus) || WIFSIGNALED(exitStatus)))
-			{
-				pid = waitpid(process, &exitStatus, 0);
-
-				if (pid < 0 && errno != EINTR)
-					LOG_ERROR << "Failed to get exit code of process: " << errno;
-			}
-
-			processTerminator.release();
-		}
-
 		if (WIFEXITED(exitStatus)) // Only send exit code on normal termination
 		{
 			int exitCode = WEXITSTATUS(exitStatus);
-- 
2.43.0


From d1f589a48cce2b9cf00496fc9b2c3d6c00478ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:46 +0000
Subject: [PATCH 09/20] fix: do not reset the connection under a client that is
 still sending when the process has ended

---
 src/Process.cxx |  3 +++
 src/Socket.cxx  | 16 ++++++++++++++++
 src/Socket.hxx  |  3 +++
 3 files changed, 22 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index a276c58..5d1d0ad 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -1016,6 +1016,9 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		}
 #endif
 
+		// Wait for the client to close the connection, so that it receives everything even if it is still sending data
+		socket.finish();
+
 terminateServer:
 		;
 	}
diff --git a/src/Socket.cxx b/src/Socket.cxx
index 7ebf00a..52f5cca 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -229,6 +229,22 @@ void k8psh::Socket::close()
 	}
 }
 
+// Ends the connection once everything has been written.
+void k8psh::Socket::finish()
+{
+	std::vector<std::uint8_t> discarded(8192);
+
+	LOG_DEBUG << "Finishing connection " << _handle;
+#ifdef _WIN32
+	(void)shutdown(_handle, SD_SEND);
+#else
+	(void)shutdown(_handle, SHUT_WR);
+#endif
+
+	while (read(discarded) != 0)
+		; // Continue until the peer has closed its side
+}
+
 // Gets the bound port of the socket, or zero if the socket is not valid.
 unsigned short k8psh::Socket::getPort() const
 {
diff --git a/src/Socket.hxx b/src/Socket.hxx
index a49f7bb..d99a479 100644
--- a/src/Socket.hxx
+++ b/src/Socket.hxx
@@ -90,6 +90,9 @@ public:
 	// (On Windows the socket will automatically be placed in non-blocking mode, and the event is subject to spurious wake-ups since it is reset after a wait rather than after a read.)
 	Event createReadEvent();
 
+	// Ends the connection once everything has been written. This waits for the peer to close its side and discards any data it still sends, since closing a socket with unread data may reset the connection before the peer has received everything.
+	void finish();
+
 	// Gets the bound port of the socket, or zero if the socket is not valid.
 	unsigned short getPort() const;
 
-- 
2.43.0


From 94e3c33b0c25545cc63411945b67579f02162426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:11 +0000
Subject: [PATCH 10/20] fix: stop polling standard input in the client after it
 has been closed

---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 5d1d0ad..e7c7ef7 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -429,6 +429,9 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 						LOG_DEBUG << "Received stdin close command from server";
 						std::cin.setstate(std::ios_base::eofbit);
 						(void)std::fclose(stdin);
+#ifndef _WIN32
+						pollSet[0].fd = -1; // The descriptor is closed, so ignore it from now on
+#endif
 					}
 
 					break;
-- 
2.43.0


From a06035aaa489fed21d67b64d468a925e4ece0bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:11 +0000
Subject: [PATCH 11/20] fix: pass received output on immediately and report
 when it cannot be written

---
 src/Process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index e7c7ef7..d045b81 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -247,7 +247,7 @@ static void outputStdStreamData(std::ostream &stream, FILE *file, const char *na
 		LOG_DEBUG << "Received " << name << " data (" << length << " bytes) from server";
 		std::string data = receiveSocket.readString(length);
 
-		if (!std::fwrite(data.data(), data.length(), 1, file))
+		if (!std::fwrite(data.data(), data.length(), 1, file) || std::fflush(file) != 0)
 			LOG_ERROR << "Failed to write " << name << " data";
 	}
 	else if (!stream.eof())
-- 
2.43.0


From b108d8df1f5b8506f6751a00e9d395105924f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 12/20] fix: do not give up connecting at once when
 connectTimeoutMs is beyond the range of the clock

---
 src/Process.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index d045b81..64517d7 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -274,7 +274,13 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 	Socket socket;
 	BufferedSendSocket sendSocket(socket);
 	BufferedReceiveSocket receiveSocket(socket);
-	auto endTime = configuration.getConnectTimeoutMs() >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(configuration.getConnectTimeoutMs()) : std::chrono::steady_clock::time_point::max();
+	auto startTime = std::chrono::steady_clock::now();
+	auto endTime = std::chrono::steady_clock::time_point::max();
+
+	// Timeouts beyond the range of the clock never expire
+	if (configuration.getConnectTimeoutMs() >= 0 && configuration.getConnectTimeoutMs() < std::chrono::duration_cast<std::chrono::milliseconds>(endTime - startTime).count())
+		endTime = startTime + std::chrono::milliseconds(configuration.getConnectTimeoutMs());
+
 	std::chrono::milliseconds backoff = std::chrono::milliseconds(16);
 
 	// Connect to the server
-- 
2.43.0


From 591fbb07d40985e556a0babaeaea8afbf9d6d7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 13/20] fix: do not log in the signal handler

Logging allocates memory, so a signal that arrived during an allocation could
hang the server when debug logging is enabled.
---
 src/Main.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 4ea51b0..4f6ec33 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -238,7 +238,7 @@ template <typename T> static T clampPositive(T value, T max)
 // Handles signals by requesting that the application exit.
 extern "C" void handleSignal(int signal)
 {
-	LOG_DEBUG << "Handling signal " << signal;
+	(void)signal; // Nothing is logged here, since a signal may arrive at any time (including while the heap or log are in use)
 #ifdef _WIN32
 	(void)SetEvent(exitRequested);
 #else
-- 
2.43.0


From 4d1d96e06baeb53f03a4cc7359bb4a0a43954961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 14/20] fix: do not stop at once when --timeout is beyond the
 range of the clock

---
 src/Main.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 4f6ec33..b6c24c4 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -505,7 +505,15 @@ static void mainServer(int argc, const char *argv[])
 			try { timeoutMs = std::stoll(timeout); }
 			catch (const std::exception &e) { LOG_ERROR << "Failed to parse timeout (" << timeout << "): " << e.what(); }
 
-			auto endTime = timeoutMs >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(timeoutMs) : std::chrono::steady_clock::time_point::max();
+			auto endTime = std::chrono::steady_clock::time_point::max();
+
+			if (timeoutMs >= 0)
+			{
+				const auto startTime = std::chrono::steady_clock::now();
+
+				if (timeoutMs < std::chrono::duration_cast<std::chrono::milliseconds>(endTime - startTime).count())
+					endTime = startTime + std::chrono::milliseconds(timeoutMs);
+			}
 
 			// Daemonize, if desired
 			if (daemonize)
-- 
2.43.0


From c1ce42b4e556bc67082a50e6b24abf733c29ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 15/20] fix: stop at the timeout even when connections keep
 arriving

---
 src/Main.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index b6c24c4..f15d308 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -619,6 +619,9 @@ static void mainServer(int argc, const char *argv[])
 				auto waitMs = clampPositive(remainingMs, std::chrono::milliseconds::rep(unsigned(-1) >> 1));
 				int pollResult;
 
+				if (timeoutMs >= 0 && remainingMs < 0)
+					break;
+
 				do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0]) - (listener.isValid() ? 0 : 1)), timeoutMs >= 0 ? int(waitMs) : -1);
 				while (pollResult < 0 && (errno == EAGAIN || errno == EINTR));
 
-- 
2.43.0


From a3089d9c304731f618d4b610cf27c5772fa59755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 16/20] fix: do not remove the files of the running server when
 a connection fails

---
 src/Main.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index f15d308..4336324 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -662,6 +662,8 @@ static void mainServer(int argc, const char *argv[])
 					if (child == 0)
 					{
 						(void)close(listener.abandon());
+						keepClientExecutables = true; // Only the server removes its files
+						pidFile = -1;
 						signal(SIGCHLD, SIG_DFL);
 						k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client));
 						std::exit(0);
-- 
2.43.0


From 2ca7f973bf267d84ad82615a368c3ca640c1972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 17/20] fix: do not keep the exit request pipe open in
 connections and commands

The server was not stopped by a signal while any connection was active.
---
 src/Main.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 4336324..dbc8091 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -664,6 +664,8 @@ static void mainServer(int argc, const char *argv[])
 						(void)close(listener.abandon());
 						keepClientExecutables = true; // Only the server removes its files
 						pidFile = -1;
+						exitRequested.closeInput(); // Otherwise the server is not notified of a signal while this process exists
+						exitRequested.closeOutput();
 						signal(SIGCHLD, SIG_DFL);
 						k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client));
 						std::exit(0);
-- 
2.43.0


From b77ad4a73b06804eab40fc361cd9917c2acdcf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 18/20] fix: report when the daemon cannot create a session and
 remove its files

---
 src/Main.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index dbc8091..6943eb1 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -549,7 +549,7 @@ static void mainServer(int argc, const char *argv[])
 				}
 
 				if (setsid() == -1)
-					std::exit(-1);
+					LOG_ERROR << "Failed to create a session for daemon: " << errno;
 
 				signal(SIGHUP, SIG_IGN);
 				signal(SIGCHLD, SIG_IGN);
-- 
2.43.0


From 1f323d78303c8499f41a852c955e087f27526844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 19/20] fix: remove the client executables and PID file of a
 daemon started with relative paths

The daemon changes its working directory to /, so relative paths did not refer to
the files it created when they were removed.
---
 src/Main.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 6943eb1..a8327a6 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -423,6 +423,18 @@ static void mainServer(int argc, const char *argv[])
 			deferredArgc = deferredArgs.size();
 	}
 
+#ifndef _WIN32
+	// The daemon changes its working directory, so make sure that the files it creates can be removed afterwards
+	if (daemonize)
+	{
+		if (!k8psh::Utilities::isAbsolutePath(directory))
+			directory = k8psh::Utilities::getWorkingDirectory() + '/' + directory;
+
+		if (!pidFilename.empty() && !k8psh::Utilities::isAbsolutePath(pidFilename))
+			pidFilename = k8psh::Utilities::getWorkingDirectory() + '/' + pidFilename;
+	}
+#endif
+
 	// Generate the appropriate client symlinks / executables
 	std::string clientCommand = k8psh::Utilities::getExecutablePath();
 	const auto commands = configuration.getCommands();
-- 
2.43.0


From fe1b22d7c54c1b276c9024aee7db8f7e91599196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 20/20] fix: --install leaves the end of a longer existing file
 behind

---
 src/Main.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index a8327a6..2b92fdf 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -156,7 +156,7 @@ static void mainClient(int argc, const char *argv[])
 					if (source < 0)
 						LOG_ERROR << "Failed to open " << clientCommand << ": " << errno;
 
-					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT, 0755);
+					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755);
 
 					if (dest < 0)
 						LOG_ERROR << "Failed to open " << installFilename << ": " << errno;
-- 
2.43.0

