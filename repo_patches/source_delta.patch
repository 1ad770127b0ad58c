From 4114cb833478e2d201db6e8b4d536574de448bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:56 +0000
Subject: [PATCH 01/25] fix: decode hexadecimal digits A-F in \x escapes of the
 configuration

---
 src/Configuration.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index da9de39..ea39635 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -28,11 +28,11 @@ static char parseHexValue(char c)
 	if (c >= '0' && c <= '9')
 		return c - '0';
 	else if (c >= 'a' && c <= 'f')
-		return c - 'a';
+		return c - 'a' + 10;
 	else if (!(c >= 'A' && c <= 'F'))
 		LOG_ERROR << "Invalid hex character in configuration: " << c;
 
-	return c - 'A';
+	return c - 'A' + 10;
 }
 
 // Parses a string from the configuration.
-- 
2.43.0


From 8db400c63d24f61749ff3a99a6df55f948f7e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:56 +0000
Subject: [PATCH 02/25] fix: keep the separator after leading parent
 directories when normalizing a relative path

---
 src/Utilities.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cxx b/src/Utilities.cxx
index af67bef..fc342af 100644
--- a/src/Utilities.cxx
+++ b/src/Utilities.cxx
@@ -627,7 +627,7 @@ std::string k8psh::Utilities::normalizePath(const std::string &path)
 		{
 			directories.push_back(newPath.length());
 
-			if (directories.size() > 1)
+			if (!newPath.empty() && newPath.back() != PATH_SEPARATOR)
 				newPath += PATH_SEPARATOR;
 
 			newPath += path.substr(start, i - start);
-- 
2.43.0


From 2c547359af1b13a48012547030fb64339e0908d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 03/25] fix: do not remove the server's client executables and
 PID file when a connection fails

---
 src/Main.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 4ea51b0..e006cbf 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -652,6 +652,11 @@ static void mainServer(int argc, const char *argv[])
 					{
 						(void)close(listener.abandon());
 						signal(SIGCHLD, SIG_DFL);
+
+						// The client executables and PID file belong to the server, so do not remove them if the connection fails
+						keepClientExecutables = true;
+						pidFile = -1;
+
 						k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client));
 						std::exit(0);
 					}
-- 
2.43.0


From 8cfd4c88614e1987f03d82dac6ce5421aa0dd177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 04/25] fix: let the server exit on a signal while connections
 are active

---
 src/Main.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index e006cbf..8f9b56c 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -651,6 +651,8 @@ static void mainServer(int argc, const char *argv[])
 					if (child == 0)
 					{
 						(void)close(listener.abandon());
+						exitRequested.closeInput(); // Keeping this open would prevent the server from being notified to exit
+						exitRequested.closeOutput();
 						signal(SIGCHLD, SIG_DFL);
 
 						// The client executables and PID file belong to the server, so do not remove them if the connection fails
-- 
2.43.0


From 366255ec0c038c6d2b7135a2005b84c39fd09ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 05/25] fix: refuse new clients while waiting for connections
 to terminate

---
 src/Main.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 8f9b56c..67ccb56 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -673,6 +673,8 @@ static void mainServer(int argc, const char *argv[])
 				}
 			}
 
+			listener.close(); // Refuse new clients, rather than leave them waiting for the server to exit
+
 			if (maxConnections >= 0 && connectionCount >= maxConnections)
 				LOG_INFO << "Shutting down the server after accepting the maximum number of connections (" << connectionCount << ")";
 			else if (timeoutMs >= 0)
-- 
2.43.0


From 259d423647a5ccf663ab7ced89c0e51228463b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 06/25] fix: discard the payload of stdin data received after
 stdin is closed

---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 012137c..c80cef4 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -905,7 +905,10 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 							LOG_DEBUG << "Received stdin data (" << payloadValue << " bytes) from client";
 
 							if (stdInPipe.getInput() == Pipe::INVALID_HANDLE)
+							{
 								LOG_DEBUG << "Ignoring " << payloadValue << " received bytes due to closed stdin"; // Ignore data on stdin after close
+								(void)receiveSocket.readString(payloadValue);
+							}
 							else if (!payloadValue)
 								closeStdIn = true;
 							else
-- 
2.43.0


From 75eaa6c147a5e7478f84ba68660c65ec2a8c9bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 07/25] fix: do not lose the exit code when the process exits
 without reading all of stdin

---
 src/Process.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index c80cef4..78cd1c8 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -993,6 +993,12 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 
 			LOG_DEBUG << "Sending exit code (" << exitCode << ") to client";
 			socket.write({ std::uint8_t(EXIT_CODE), std::uint8_t(exitCode), std::uint8_t(exitCode >> 8), std::uint8_t(exitCode >> 16), std::uint8_t(exitCode >> 24) });
+
+			// Discard any remaining stdin data until the client disconnects, since closing the socket with unread data would reset the connection before the client reads the exit code
+			std::vector<std::uint8_t> discarded(DATA_BUFFER_SIZE);
+
+			while (socket.read(discarded))
+				; // Continue until the client closes the socket
 		}
 #endif
 
-- 
2.43.0


From 1b80ef38d9566d77c76f4385b2d99d7495c8ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 08/25] fix: relay output as it is received rather than when
 the client exits

---
 src/Process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 78cd1c8..05cb9fd 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -247,7 +247,7 @@ static void outputStdStreamData(std::ostream &stream, FILE *file, const char *na
 		LOG_DEBUG << "Received " << name << " data (" << length << " bytes) from server";
 		std::string data = receiveSocket.readString(length);
 
-		if (!std::fwrite(data.data(), data.length(), 1, file))
+		if (!std::fwrite(data.data(), data.length(), 1, file) || std::fflush(file) != 0)
 			LOG_ERROR << "Failed to write " << name << " data";
 	}
 	else if (!stream.eof())
-- 
2.43.0


From 74a10f4714580321bead222ae2e0547fb9c6f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 09/25] fix: do not busy wait in the client after the process
 closes stdin

---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 05cb9fd..8d37056 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -429,6 +429,9 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 						LOG_DEBUG << "Received stdin close command from server";
 						std::cin.setstate(std::ios_base::eofbit);
 						(void)std::fclose(stdin);
+#ifndef _WIN32
+						pollSet[0].fd = -1; // Polling a closed descriptor never waits
+#endif
 					}
 
 					break;
-- 
2.43.0


From 5af83c0440c67bfad26b33cafdbb513ec587def7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 10/25] fix: terminate the process whenever its connection
 fails, not only on an orderly disconnect

---
 src/Process.cxx | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 8d37056..98503b1 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -28,6 +28,7 @@
 	// Due to using events to poll for socket input on Windows (which are susceptible to race conditions), the socket must be checked for new data on the first pass
 	#define K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK false
 #else
+	#include <csignal>
 	#include <cstdlib>
 
 	#include <poll.h>
@@ -458,6 +459,21 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 
 #ifdef _WIN32
 static std::mutex workingDirectoryMutex;
+#else
+// Terminates a running process, unless it is released
+struct ProcessTerminator
+{
+	pid_t _process;
+
+	ProcessTerminator(pid_t process) : _process(process) { }
+	~ProcessTerminator()
+	{
+		if (_process > 0)
+			(void)kill(_process, SIGTERM);
+	}
+
+	void release() { _process = 0; }
+};
 #endif
 
 /** Runs the process requested by the remote socket channel.
@@ -790,6 +806,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		waitSet[2] = socket.createReadEvent();
 		waitSet[3] = process;
 #else
+		ProcessTerminator terminator(process); // Any failure (including a lost connection) terminates the process
 		int exitStatus = 0;
 		struct pollfd pollSet[4] = { };
 
@@ -819,6 +836,9 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				stdInData.clear();
 				stdInPipe.closeInput();
 				processHasExited = true;
+#ifndef _WIN32
+				terminator.release();
+#endif
 			}
 
 #ifndef _WIN32
@@ -923,8 +943,6 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 					default:
 #ifdef _WIN32
 						(void)TerminateProcess(process, UINT(-1));
-#else
-						(void)kill(process, 15); // Send TERM
 #endif
 
 						if (!dataReceived)
@@ -988,6 +1006,8 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				if (pid < 0 && errno != EINTR)
 					LOG_ERROR << "Failed to get exit code of process: " << errno;
 			}
+
+			terminator.release();
 		}
 
 		if (WIFEXITED(exitStatus)) // Only send exit code on normal termination
-- 
2.43.0


From 73abc8a4d61941b3ecd309fda7d2f0ecf0ea40bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 11/25] fix: notice a lost connection after the process has
 closed all of its streams

---
 src/Process.cxx | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 98503b1..b04bcb2 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -808,6 +808,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 #else
 		ProcessTerminator terminator(process); // Any failure (including a lost connection) terminates the process
 		int exitStatus = 0;
+		int exitPollMs = 1;
 		struct pollfd pollSet[4] = { };
 
 		pollSet[0].events = POLLOUT;
@@ -818,8 +819,13 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		pollSet[3].events = POLLIN;
 #endif
 
-		while (stdInPipe.getInput() != Pipe::INVALID_HANDLE || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE || stdErrPipe.getOutput() != Pipe::INVALID_HANDLE)
+		for (;;)
 		{
+			const bool hasOpenPipe = stdInPipe.getInput() != Pipe::INVALID_HANDLE || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE || stdErrPipe.getOutput() != Pipe::INVALID_HANDLE;
+
+			if (!hasOpenPipe && processHasExited)
+				break;
+
 			// Check for new data
 #ifdef _WIN32
 			DWORD waitResult = WaitForMultipleObjects(DWORD(sizeof(waitSet) / sizeof(waitSet[0])), waitSet, FALSE, receiveSocket.hasBufferedData() ? 0 : stdInData.empty() ? INFINITE : 16);
@@ -828,7 +834,11 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				LOG_ERROR << "Failed to wait on multiple objects for new data: " << GetLastError();
 			else if (waitResult == WAIT_OBJECT_0 + 3)
 #else
-			if (!processHasExited && waitpid(process, &exitStatus, WNOHANG) > 0 && (WIFEXITED(exitStatus) || WIFSIGNALED(exitStatus)))
+			const pid_t pid = processHasExited ? 0 : waitpid(process, &exitStatus, WNOHANG);
+
+			if (pid < 0 && errno != EINTR)
+				LOG_ERROR << "Failed to get exit code of process: " << errno;
+			else if (pid > 0 && (WIFEXITED(exitStatus) || WIFSIGNALED(exitStatus)))
 #endif
 			{
 				LOG_DEBUG << "Process terminated, closing stdin, transfering remaining stdout and stderr data";
@@ -848,7 +858,11 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			pollSet[1].fd = stdOutPipe.getOutput();
 			pollSet[2].fd = stdErrPipe.getOutput();
 
-			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : 250);
+			// Once all pipes are closed the process usually exits immediately, so check often at first
+			if (!hasOpenPipe && exitPollMs < 250)
+				exitPollMs *= 2;
+
+			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : hasOpenPipe ? 250 : exitPollMs);
 			while (pollResult < 0 && (errno == EAGAIN || errno == EINTR));
 
 			if (pollResult < 0)
@@ -979,12 +993,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			}
 		}
 
-		// Wait for application to exit
-		if (!processHasExited)
-			LOG_DEBUG << "Waiting for process to terminate";
-
 #ifdef _WIN32
-		if (processHasExited || WaitForSingleObject(process, INFINITE) == WAIT_OBJECT_0)
 		{
 			DWORD exitCode = 0;
 
@@ -995,21 +1004,6 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			}
 		}
 #else
-		if (!processHasExited)
-		{
-			pid_t pid = 0;
-
-			while (pid <= 0 || !(WIFEXITED(exitStatus) || WIFSIGNALED(exitStatus)))
-			{
-				pid = waitpid(process, &exitStatus, 0);
-
-				if (pid < 0 && errno != EINTR)
-					LOG_ERROR << "Failed to get exit code of process: " << errno;
-			}
-
-			terminator.release();
-		}
-
 		if (WIFEXITED(exitStatus)) // Only send exit code on normal termination
 		{
 			int exitCode = WEXITSTATUS(exitStatus);
-- 
2.43.0


From fcf5f8046ea9858b2ac60c5269075aa6d3fc8077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 12/25] fix: do not use a socket or pipe as a closed standard
 stream

---
 src/Main.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 67ccb56..adc0ce7 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -221,6 +221,21 @@ static void mainClient(int argc, const char *argv[])
 #ifdef _WIN32
 static HANDLE exitRequested;
 #else
+// Opens any standard streams that are closed, so that no pipe or socket takes their place (this must be constructed before any other descriptors are opened)
+static struct StandardStreams
+{
+	StandardStreams()
+	{
+		int fd;
+
+		while ((fd = open("/dev/null", O_RDWR, 0)) >= 0 && fd <= STDERR_FILENO)
+			; // Continue until all standard streams are open
+
+		if (fd >= 0)
+			(void)close(fd);
+	}
+} standardStreams;
+
 static k8psh::Pipe exitRequested;
 #endif
 
-- 
2.43.0


From 587eb1ef30921a13b2d01a9d7ec2dc924fccbecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 13/25] fix: remove client executables and PID file with
 relative paths when the daemon exits

---
 src/Main.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index adc0ce7..b7ab210 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -438,6 +438,16 @@ static void mainServer(int argc, const char *argv[])
 			deferredArgc = deferredArgs.size();
 	}
 
+	// The daemon changes its working directory, so relative paths would no longer refer to the same files
+	if (daemonize)
+	{
+		if (!k8psh::Utilities::isAbsolutePath(directory))
+			directory = k8psh::Utilities::getWorkingDirectory() + '/' + directory;
+
+		if (!pidFilename.empty() && !k8psh::Utilities::isAbsolutePath(pidFilename))
+			pidFilename = k8psh::Utilities::getWorkingDirectory() + '/' + pidFilename;
+	}
+
 	// Generate the appropriate client symlinks / executables
 	std::string clientCommand = k8psh::Utilities::getExecutablePath();
 	const auto commands = configuration.getCommands();
-- 
2.43.0


From c2e6c0e47f9382bbfcb97712512f7c228b5cad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 14/25] fix: replace any existing file when installing the
 client

---
 src/Main.cxx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index b7ab210..c53c77a 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -148,6 +148,16 @@ static void mainClient(int argc, const char *argv[])
 				if (CreateHardLinkA(installFilename.c_str(), clientCommand.c_str(), NULL) == 0 && CopyFileA(clientCommand.c_str(), installFilename.c_str(), FALSE) == 0)
 					LOG_ERROR << "Failed to install " << clientCommand << " to " << installFilename << ": " << GetLastError();
 #else
+				struct stat sourceStat;
+				struct stat destStat;
+
+				// Nothing needs to be done if the destination already is the client executable
+				if (stat(clientCommand.c_str(), &sourceStat) == 0 && lstat(installFilename.c_str(), &destStat) == 0 && sourceStat.st_dev == destStat.st_dev && sourceStat.st_ino == destStat.st_ino)
+					std::exit(0);
+
+				// Any existing file is replaced rather than written to, since it may be in use, longer, or not executable
+				(void)k8psh::Utilities::deleteFile(installFilename);
+
 				if (link(clientCommand.c_str(), installFilename.c_str()) != 0)
 				{
 					char buffer[8192];
@@ -156,7 +166,7 @@ static void mainClient(int argc, const char *argv[])
 					if (source < 0)
 						LOG_ERROR << "Failed to open " << clientCommand << ": " << errno;
 
-					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT, 0755);
+					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755);
 
 					if (dest < 0)
 						LOG_ERROR << "Failed to open " << installFilename << ": " << errno;
-- 
2.43.0


From 6eaea87bc928e23f91688cde46465893a4d5888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 15/25] fix: reject a sequential port that is out of range

---
 src/Configuration.cxx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index ea39635..10a8657 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -237,7 +237,7 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 
 	// Parse server settings
 	std::shared_ptr<Host> currentHost;
-	unsigned short currentPort = DEFAULT_STARTING_PORT;
+	unsigned long currentPort = DEFAULT_STARTING_PORT;
 	std::vector<std::pair<std::string, std::string> > environmentVariables;
 
 	for (;;)
@@ -267,17 +267,15 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 						LOG_ERROR << "Invalid port number \"" << port << '"';
 				}
 
-				unsigned long portValue = std::stoul(port);
-
-				if (portValue >= 65536)
-					LOG_ERROR << "Port out of range: " << portValue;
-
-				currentPort = static_cast<unsigned short>(portValue);
+				currentPort = std::stoul(port);
 			}
 
+			if (currentPort >= 65536)
+				LOG_ERROR << "Port out of range: " << currentPort;
+
 			// Assign the new host information
 			currentHost->_hostname = host.substr(0, colon);
-			currentHost->_port = currentPort++;
+			currentHost->_port = static_cast<unsigned short>(currentPort++);
 
 			// Parse the options for environment variables
 			environmentVariables.clear();
-- 
2.43.0


From 16bd4416d4f1f2ff035688e56ee067f884142b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 16/25] fix: do not overflow the clock when given a very large
 timeout

---
 src/Main.cxx    | 7 ++++++-
 src/Process.cxx | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index c53c77a..b11bb02 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -540,7 +540,12 @@ static void mainServer(int argc, const char *argv[])
 			try { timeoutMs = std::stoll(timeout); }
 			catch (const std::exception &e) { LOG_ERROR << "Failed to parse timeout (" << timeout << "): " << e.what(); }
 
-			auto endTime = timeoutMs >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(timeoutMs) : std::chrono::steady_clock::time_point::max();
+			auto startTime = std::chrono::steady_clock::now();
+			auto endTime = std::chrono::steady_clock::time_point::max();
+
+			// Any timeout that would overflow the clock is the same as running forever
+			if (timeoutMs >= 0 && timeoutMs < std::chrono::duration_cast<std::chrono::milliseconds>(endTime - startTime).count())
+				endTime = startTime + std::chrono::milliseconds(timeoutMs);
 
 			// Daemonize, if desired
 			if (daemonize)
diff --git a/src/Process.cxx b/src/Process.cxx
index b04bcb2..e2f273e 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -275,7 +275,13 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 	Socket socket;
 	BufferedSendSocket sendSocket(socket);
 	BufferedReceiveSocket receiveSocket(socket);
-	auto endTime = configuration.getConnectTimeoutMs() >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(configuration.getConnectTimeoutMs()) : std::chrono::steady_clock::time_point::max();
+	auto startTime = std::chrono::steady_clock::now();
+	auto endTime = std::chrono::steady_clock::time_point::max();
+
+	// Any timeout that would overflow the clock is the same as waiting forever
+	if (configuration.getConnectTimeoutMs() >= 0 && configuration.getConnectTimeoutMs() < std::chrono::duration_cast<std::chrono::milliseconds>(endTime - startTime).count())
+		endTime = startTime + std::chrono::milliseconds(configuration.getConnectTimeoutMs());
+
 	std::chrono::milliseconds backoff = std::chrono::milliseconds(16);
 
 	// Connect to the server
-- 
2.43.0


From bba967d1b76fb2af04a6c35c921f51a2f2f7d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:22 +0000
Subject: [PATCH 17/25] fix: drop only the connection when its process cannot
 be created

---
 src/Main.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index b11bb02..a48f70b 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -706,7 +706,7 @@ static void mainServer(int argc, const char *argv[])
 					(void)close(client.abandon());
 
 					if (child == -1)
-						LOG_ERROR << "Failed to fork client: " << errno;
+						LOG_WARNING << "Failed to fork client: " << errno;
 #endif
 
 					connectionCount++;
-- 
2.43.0


From dfa8aa013c28f6bec0ee78da318496d150b93306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 18/25] fix: defer requests to exit until they can be handled

A signal that arrived while the server was creating client executables (or,
in the background, its PID file) ended it at once and left those behind, so
that the next server could not start.
---
 src/Main.cxx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index a48f70b..487862e 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -495,6 +495,20 @@ static void mainServer(int argc, const char *argv[])
 #endif
 	};
 
+#ifndef _WIN32
+	// Defer any request to exit until it can be handled, otherwise the client executables created so far would be left behind
+	sigset_t exitSignals;
+	sigset_t previousSignals;
+
+	(void)sigemptyset(&exitSignals);
+	(void)sigaddset(&exitSignals, SIGHUP);
+	(void)sigaddset(&exitSignals, SIGINT);
+	(void)sigaddset(&exitSignals, SIGTERM);
+
+	if (listener.isValid())
+		(void)sigprocmask(SIG_BLOCK, &exitSignals, &previousSignals);
+#endif
+
 	try
 	{
 		for (auto it = commands.begin(); it != commands.end(); ++it)
@@ -613,6 +627,8 @@ static void mainServer(int argc, const char *argv[])
 
 #ifdef _WIN32
 			(void)SetConsoleCtrlHandler(handleCtrlC, TRUE);
+#else
+			(void)sigprocmask(SIG_SETMASK, &previousSignals, NULL);
 #endif
 
 			// Main loop
-- 
2.43.0


From 36a4904261fc91aabc6dbeb4d780ffcb32a02b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 19/25] fix: never connect a socket to itself

---
 src/Socket.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Socket.cxx b/src/Socket.cxx
index 7ebf00a..82c7084 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -167,6 +167,21 @@ k8psh::Socket k8psh::Socket::connect(unsigned short port, bool failOnError)
 		return INVALID_HANDLE;
 	}
 
+	// A socket that happens to use the same local port gets connected to itself if nothing is listening on the port
+	if (socket.getPort() == port)
+	{
+		LOG_DEBUG << "Socket " << socket._handle << " connected to itself on port " << port;
+
+#ifndef _WIN32
+		// Reset the connection, since otherwise it would linger and prevent the server from listening on the port
+		struct linger reset = { 1, 0 };
+
+		(void)setSocketOption<struct linger>(socket._handle, SOL_SOCKET, SO_LINGER, reset);
+		(void)::close(socket.abandon());
+#endif
+		return INVALID_HANDLE;
+	}
+
 	setSocketOptions(socket._handle);
 	LOG_DEBUG << "Connected to port " << port << " on socket " << socket._handle;
 	return socket;
-- 
2.43.0


From 60774026dc7bac8baca1291e1abadf4a83c4d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 20/25] fix: keep sending input while output arrives steadily

The client only looked at its standard input once the socket had no more
data, so a command whose output was consumed more slowly than it was
produced never got any input. Handle one payload at a time, and never wait
for the server to accept input while it may be waiting for the client to
accept output.
---
 src/Process.cxx | 51 +++++++++++++++++++++++++++++++++++++++++--------
 src/Socket.cxx  | 20 +++++++++++++++++++
 src/Socket.hxx  | 10 ++++++++++
 3 files changed, 73 insertions(+), 8 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index e2f273e..79fcf92 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -27,6 +27,9 @@
 
 	// Due to using events to poll for socket input on Windows (which are susceptible to race conditions), the socket must be checked for new data on the first pass
 	#define K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK false
+
+	// The event may not be set again until all data has been read
+	#define K8PSH_READ_ALL_SOCKET_DATA true
 #else
 	#include <csignal>
 	#include <cstdlib>
@@ -42,6 +45,9 @@
 	#endif
 
 	#define K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK true
+
+	// Steady data on the socket must not keep all other data waiting
+	#define K8PSH_READ_ALL_SOCKET_DATA false
 #endif
 
 /**
@@ -209,6 +215,25 @@ public:
 		}
 	}
 
+#ifndef _WIN32
+	// Checks if there is any pending data
+	bool hasPendingData() const { return _end != 0; }
+
+	// Discards any pending data
+	void discard() { _end = 0; }
+
+	// Flushes as much pending data to the socket as possible without waiting
+	void flushAvailable()
+	{
+		std::size_t sent = _socket.writeAvailable(_data, _end);
+
+		for (std::size_t i = sent; sent && i < _end; i++)
+			_data[i - sent] = _data[i];
+
+		_end -= sent;
+	}
+#endif
+
 	// Writes a payload to the socket
 	void write(PayloadType type, const std::string &string, std::size_t length, bool flush = true)
 	{
@@ -349,12 +374,10 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 	waitSet[1] = socket.createReadEvent();
 #else
 	struct pollfd pollSet[2] = { };
+	int stdInFd = STDIN_FILENO;
 
-	pollSet[0].fd = STDIN_FILENO;
 	pollSet[0].events = POLLIN;
-
 	pollSet[1].fd = socket.createReadEvent();
-	pollSet[1].events = POLLIN;
 #endif
 
 	std::string stdInBuffer(DATA_BUFFER_SIZE - 1, '\0');
@@ -371,6 +394,9 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 #else
 		int pollResult;
 
+		pollSet[0].fd = sendSocket.hasPendingData() ? -1 : stdInFd; // Only read more stdin data once the previous data has been sent
+		pollSet[1].events = sendSocket.hasPendingData() ? POLLIN | POLLOUT : POLLIN;
+
 		do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : -1);
 		while (pollResult < 0 && (errno == EAGAIN || errno == EINTR));
 
@@ -401,13 +427,19 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 			if (received < 0)
 				LOG_ERROR << "Failed to read data from stdin: " << errno;
 			else if (received == 0)
-				pollSet[0].fd = -1; // No more data, so ignore it from now on
+				stdInFd = -1; // No more data, so ignore it from now on
 
 			LOG_DEBUG << "Sending stdin data (" << received << " bytes) to server";
-			sendSocket.write(STDIN_DATA, stdInBuffer, std::size_t(received));
+			sendSocket.write(STDIN_DATA, stdInBuffer, std::size_t(received), false);
 #endif
 		}
 
+#ifndef _WIN32
+		// Waiting until all data has been sent would deadlock if the server is waiting to send its data
+		if (sendSocket.hasPendingData())
+			sendSocket.flushAvailable();
+#endif
+
 		// Check for socket data
 #ifdef _WIN32
 		if (waitResult == WAIT_OBJECT_0 + 1 || receiveSocket.hasBufferedData())
@@ -417,7 +449,7 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 		else if ((pollSet[1].revents & (POLLIN | POLLHUP)) != 0 || receiveSocket.hasBufferedData())
 #endif
 		{
-			for (bool skipCheck = K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK; skipCheck || receiveSocket.hasData(); skipCheck = false)
+			for (bool skipCheck = K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK; skipCheck || (K8PSH_READ_ALL_SOCKET_DATA && receiveSocket.hasData()); skipCheck = false)
 			{
 				PayloadType type;
 				std::uint32_t payloadValue;
@@ -437,7 +469,7 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 						std::cin.setstate(std::ios_base::eofbit);
 						(void)std::fclose(stdin);
 #ifndef _WIN32
-						pollSet[0].fd = -1; // Polling a closed descriptor never waits
+						stdInFd = -1; // Polling a closed descriptor never waits
 #endif
 					}
 
@@ -453,6 +485,9 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 
 				case EXIT_CODE:
 					LOG_DEBUG << "Received exit code (" << int(payloadValue) << ") from server";
+#ifndef _WIN32
+					sendSocket.discard();
+#endif
 					return int(payloadValue);
 
 				default:
@@ -934,7 +969,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			else if ((pollSet[3].revents & (POLLIN | POLLHUP)) != 0 || receiveSocket.hasBufferedData())
 #endif
 			{
-				for (bool skipCheck = K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK; skipCheck || receiveSocket.hasData(); skipCheck = false)
+				for (bool skipCheck = K8PSH_SKIP_FIRST_SOCKET_DATA_CHECK; skipCheck || (K8PSH_READ_ALL_SOCKET_DATA && receiveSocket.hasData()); skipCheck = false)
 				{
 					bool dataReceived = receiveSocket.read(type, payloadValue);
 
diff --git a/src/Socket.cxx b/src/Socket.cxx
index 82c7084..74e674c 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -400,3 +400,23 @@ std::size_t k8psh::Socket::write(const std::vector<std::uint8_t> &data, std::siz
 	LOG_DEBUG << "Wrote " << totalSent << " bytes on socket " << _handle;
 	return totalSent;
 }
+
+#ifndef _WIN32
+/** Writes as much data to the socket as possible without waiting, up to the ending index.
+ *
+ * @param data a vector of data to write to the socket
+ * @param end the ending index (exclusive) of the data to write
+ * @return the number of bytes written to the socket
+ */
+std::size_t k8psh::Socket::writeAvailable(const std::vector<std::uint8_t> &data, std::size_t end)
+{
+	auto sent = send(_handle, data.data(), end, MSG_DONTWAIT);
+
+	if (sent >= 0)
+		return std::size_t(sent);
+	else if (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)
+		LOG_ERROR << "Failed to write data to socket: " << getSocketErrorCode();
+
+	return 0;
+}
+#endif
diff --git a/src/Socket.hxx b/src/Socket.hxx
index a49f7bb..1987397 100644
--- a/src/Socket.hxx
+++ b/src/Socket.hxx
@@ -124,6 +124,16 @@ public:
 	 * @return the number of bytes written to the socket
 	 */
 	std::size_t write(const std::vector<std::uint8_t> &data, std::size_t offset, std::size_t end);
+
+#ifndef _WIN32
+	/** Writes as much data to the socket as possible without waiting, up to the ending index.
+	 *
+	 * @param data a vector of data to write to the socket
+	 * @param end the ending index (exclusive) of the data to write
+	 * @return the number of bytes written to the socket
+	 */
+	std::size_t writeAvailable(const std::vector<std::uint8_t> &data, std::size_t end);
+#endif
 };
 
 } // k8psh
-- 
2.43.0


From 3d311abf08f54c388ab5b971c0b467a77b53612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 21/25] fix: fail if the working directory is needed but
 unknown

A client in a deleted directory below a base directory of / ran its command
in the base directory, and a background server started in one resolved
relative paths against the root directory.
---
 src/Main.cxx | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 487862e..1264862 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -55,6 +55,17 @@ static k8psh::Configuration getConfiguration(const k8psh::OptionalString &config
 	return k8psh::Configuration::load(configurationString, k8psh::Utilities::getParentDirectory(configurationFile));
 }
 
+// Gets the working directory, which cannot be determined if it no longer exists.
+static std::string getKnownWorkingDirectory()
+{
+	const auto workingDirectory = k8psh::Utilities::getWorkingDirectory();
+
+	if (workingDirectory.empty())
+		LOG_ERROR << "Working directory could not be determined";
+
+	return workingDirectory;
+}
+
 /** Parses a command line option from the arguments provided.
  * 
  * @param argument the current argument being evaluated
@@ -225,7 +236,7 @@ static void mainClient(int argc, const char *argv[])
 		LOG_ERROR << "Failed to find command \"" << commandName << "\" in configuration";
 
 	LOG_DEBUG << "Starting command " << commandName;
-	std::exit(k8psh::Process::runRemoteCommand(k8psh::Utilities::relativizePath(configuration.getBaseDirectory(), k8psh::Utilities::getWorkingDirectory()), commandIt->second, std::size_t(argc) - i, argv + i, configuration));
+	std::exit(k8psh::Process::runRemoteCommand(k8psh::Utilities::relativizePath(configuration.getBaseDirectory(), getKnownWorkingDirectory()), commandIt->second, std::size_t(argc) - i, argv + i, configuration));
 }
 
 #ifdef _WIN32
@@ -452,10 +463,10 @@ static void mainServer(int argc, const char *argv[])
 	if (daemonize)
 	{
 		if (!k8psh::Utilities::isAbsolutePath(directory))
-			directory = k8psh::Utilities::getWorkingDirectory() + '/' + directory;
+			directory = getKnownWorkingDirectory() + '/' + directory;
 
 		if (!pidFilename.empty() && !k8psh::Utilities::isAbsolutePath(pidFilename))
-			pidFilename = k8psh::Utilities::getWorkingDirectory() + '/' + pidFilename;
+			pidFilename = getKnownWorkingDirectory() + '/' + pidFilename;
 	}
 
 	// Generate the appropriate client symlinks / executables
-- 
2.43.0


From a39d8a540825b755ed8f232482a7100e2dad9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 22/25] fix: keep files that have replaced a client executable
 when the server exits

The server removed its client executables by name, and so also those that
another server (started as soon as this one had stopped listening, while it
was still waiting for its commands) or somebody else has put in their place.
---
 src/Main.cxx | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 1264862..26b4020 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -21,6 +21,10 @@
 	#include <sys/stat.h>
 	#include <sys/wait.h>
 	#include <unistd.h>
+
+	#ifdef __APPLE__
+		#define st_mtim st_mtimespec
+	#endif
 #endif
 
 #include "Configuration.hxx"
@@ -474,6 +478,7 @@ static void mainServer(int argc, const char *argv[])
 	const auto commands = configuration.getCommands();
 	std::vector<std::string> createdExecutables;
 #ifndef _WIN32
+	std::vector<struct stat> createdStats; // Identifies the created executables
 	int pidFile = -1;
 #endif
 	auto cleanup = [&]
@@ -491,7 +496,14 @@ static void mainServer(int argc, const char *argv[])
 
 				if (!attemptsRemaining)
 #else
-				if (!k8psh::Utilities::deleteFile(*it))
+				const struct stat &createdStat = createdStats[std::size_t(it - createdExecutables.begin())];
+				struct stat fileStat;
+
+				// Any file that has replaced the client executable since (for example that of the next server) must be kept
+				if (lstat(it->c_str(), &fileStat) == 0 && (fileStat.st_dev != createdStat.st_dev || fileStat.st_ino != createdStat.st_ino ||
+						fileStat.st_mtim.tv_sec != createdStat.st_mtim.tv_sec || fileStat.st_mtim.tv_nsec != createdStat.st_mtim.tv_nsec))
+					LOG_DEBUG << "Keeping file that has replaced client executable " << *it;
+				else if (!k8psh::Utilities::deleteFile(*it))
 #endif
 					LOG_WARNING << "Failed to remove client executable " << *it;
 				else
@@ -551,6 +563,10 @@ static void mainServer(int argc, const char *argv[])
 
 			LOG_DEBUG << "Created client executable " << filename;
 			createdExecutables.emplace_back(filename);
+#ifndef _WIN32
+			createdStats.emplace_back();
+			(void)lstat(filename.c_str(), &createdStats.back());
+#endif
 		}
 
 		if (listener.isValid())
-- 
2.43.0


From dce3fadfbf0f75eaac43cf10436c5bf44108af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 23/25] fix: do not move all of the waiting input after every
 write to a command

Input that the command does not read yet is kept by the server. Each write to
the command moved all of the rest of it, so that passing on a few hundred
megabytes that had to wait took minutes.
---
 src/Process.cxx   | 14 ++++++++++++--
 src/Utilities.cxx |  7 ++++---
 src/Utilities.hxx |  3 ++-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 79fcf92..0e9301c 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -827,6 +827,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		// Process stdin, stdout, stderr
 		bool processHasExited = false;
 		std::string stdInData;
+		std::size_t stdInOffset = 0; // The offset of the first byte in stdInData that has not been written
 		bool closeStdIn = false;
 		std::string pipeData(DATA_BUFFER_SIZE, '\0');
 
@@ -885,6 +886,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				LOG_DEBUG << "Process terminated, closing stdin, transfering remaining stdout and stderr data";
 
 				stdInData.clear();
+				stdInOffset = 0;
 				stdInPipe.closeInput();
 				processHasExited = true;
 #ifndef _WIN32
@@ -1015,13 +1017,21 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			// Handle stdin data out-of-band, so we don't end up in a pipe-write deadlock
 			if (!stdInData.empty())
 			{
-				(void)stdInData.erase(0, stdInPipe.write(stdInData));
+				stdInOffset += stdInPipe.write(stdInData, stdInOffset);
+
+				// Only discard the written data once it makes up half of the data, since this moves all of the remaining data
+				if (stdInOffset >= stdInData.length() - stdInOffset)
+				{
+					(void)stdInData.erase(0, stdInOffset);
+					stdInOffset = 0;
+				}
 
 				// Check if the pipe has been closed
 				if (stdInPipe.getInput() == Pipe::INVALID_HANDLE)
 				{
-					LOG_DEBUG << "Process has closed stdin, lost " << stdInData.length() << " bytes";
+					LOG_DEBUG << "Process has closed stdin, lost " << stdInData.length() - stdInOffset << " bytes";
 					stdInData.clear();
+					stdInOffset = 0;
 					sendSocket.write(STDIN_DATA, stdInData, std::size_t());
 				}
 			}
diff --git a/src/Utilities.cxx b/src/Utilities.cxx
index fc342af..be6910a 100644
--- a/src/Utilities.cxx
+++ b/src/Utilities.cxx
@@ -339,9 +339,10 @@ bool k8psh::Pipe::setInputNonblocking()
 /** Writes data to the pipe.
  *
  * @param buffer the buffer to write to the pipe
+ * @param offset the offset in the buffer of the first byte to write
  * @return the number of bytes written to the pipe, which may be less than the size of the buffer if the reading end of the pipe is closed
  */
-std::size_t k8psh::Pipe::write(const std::string &buffer)
+std::size_t k8psh::Pipe::write(const std::string &buffer, std::size_t offset)
 {
 	if (_input == INVALID_HANDLE)
 		return 0;
@@ -349,10 +350,10 @@ std::size_t k8psh::Pipe::write(const std::string &buffer)
 #ifdef _WIN32
 	DWORD bytesWritten = 0;
 
-	if (WriteFile(_input, &buffer[0], DWORD(buffer.length()), &bytesWritten, NULL) != 0)
+	if (WriteFile(_input, &buffer[offset], DWORD(buffer.length() - offset), &bytesWritten, NULL) != 0)
 		return bytesWritten;
 #else
-	auto wrote = ::write(_input, &buffer[0], buffer.length());
+	auto wrote = ::write(_input, &buffer[offset], buffer.length() - offset);
 
 	if (wrote >= 0)
 		return wrote;
diff --git a/src/Utilities.hxx b/src/Utilities.hxx
index f188d41..2dfd65b 100644
--- a/src/Utilities.hxx
+++ b/src/Utilities.hxx
@@ -146,9 +146,10 @@ public:
 	/** Writes data to the pipe.
 	 *
 	 * @param buffer the buffer to write to the pipe
+	 * @param offset the offset in the buffer of the first byte to write
 	 * @return the number of bytes written to the pipe, which may be less than the size of the buffer if the reading end of the pipe is closed
 	 */
-	std::size_t write(const std::string &buffer);
+	std::size_t write(const std::string &buffer, std::size_t offset = 0);
 };
 
 class OptionalString : public std::string
-- 
2.43.0


From 9a5e44dd66d639d35c78865844b9e294360f66f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:53 +0000
Subject: [PATCH 24/25] fix: flush debug messages, which were otherwise
 repeated by forked processes and lost on failure

---
 src/Utilities.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Utilities.cxx b/src/Utilities.cxx
index be6910a..dafdd56 100644
--- a/src/Utilities.cxx
+++ b/src/Utilities.cxx
@@ -168,6 +168,7 @@ k8psh::Logger::~Logger()
 	case LEVEL_DEBUG:
 		ss << "(" << getDebugName(getFilename()) << ") " << message << std::endl;
 		atomicWrite(stdout, ss.str());
+		(void)std::fflush(stdout); // Otherwise, buffered messages are repeated by every forked process and lost if the process is replaced or aborted
 		break;
 
 	case LEVEL_INFO:
-- 
2.43.0


From c70a6a976ba36f33f7a47463e02e5d46f07ab553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 25/25] fix: make an installed file that could not be replaced
 executable

---
 src/Main.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 26b4020..d04038a 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -186,6 +186,10 @@ static void mainClient(int argc, const char *argv[])
 					if (dest < 0)
 						LOG_ERROR << "Failed to open " << installFilename << ": " << errno;
 
+					// A file that could not be replaced keeps its permissions
+					if (fstat(dest, &destStat) != 0 || ((destStat.st_mode & S_IXUSR) == 0 && fchmod(dest, (destStat.st_mode & 07777) | S_IXUSR | (destStat.st_mode & 0444) >> 2) != 0))
+						LOG_ERROR << "Failed to make " << installFilename << " executable: " << errno;
+
 					for (;;)
 					{
 						auto size = read(source, buffer, sizeof(buffer));
-- 
2.43.0

