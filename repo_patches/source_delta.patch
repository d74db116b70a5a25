From c11de484f4567e27cd7e4e7f878b6a6d2454e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:13 +0000
Subject: [PATCH 01/21] fix: report malformed opdata as an error instead of
 panicking

---
 1pass-core/core/service/keyservice.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/1pass-core/core/service/keyservice.go b/1pass-core/core/service/keyservice.go
index 7bc3702..5eaa35a 100644
--- a/1pass-core/core/service/keyservice.go
+++ b/1pass-core/core/service/keyservice.go
@@ -84,6 +84,10 @@ func (s *dfltKeyService) DecodeKeys(key, derivedKey, derivedMac []byte) ([]byte,
 }
 
 func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, error) {
+	if len(cipherText) < 64 {
+		return nil, domain.ErrInvalidHmac
+	}
+
 	data, mac := cipherText[:len(cipherText)-32], cipherText[len(cipherText)-32:]
 
 	if err := s.CheckHmac(data, macKey, mac); err != nil {
@@ -97,6 +101,10 @@ func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, e
 		return nil, err
 	}
 
+	if len(data)%aes.BlockSize != 0 || plainSize < 0 || plainSize > int64(len(data)-32) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	plain, err := s.DecodeData(key, data[16:32], data[32:])
 
 	if err != nil {
-- 
2.43.0


From 702f1a00a3116bf52333fdd4480f7bc5824c6bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:38 +0000
Subject: [PATCH 02/21] fix: authenticate item keys before using them

---
 1pass-core/core/service/keyservice.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/1pass-core/core/service/keyservice.go b/1pass-core/core/service/keyservice.go
index 5eaa35a..96f3700 100644
--- a/1pass-core/core/service/keyservice.go
+++ b/1pass-core/core/service/keyservice.go
@@ -128,9 +128,23 @@ func (s *dfltKeyService) DerivedKeys(password string) ([]byte, []byte, error) {
 }
 
 func (s *dfltKeyService) ItemKeys(item *domain.RawItem, keys *domain.Keys) ([]byte, []byte) {
-	itemKeys, _ := base64.StdEncoding.DecodeString(item.Keys)
-	data := itemKeys[:len(itemKeys)-32]
-	plain, _ := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+	itemKeys, err := base64.StdEncoding.DecodeString(item.Keys)
+
+	if err != nil || len(itemKeys) < 112 || len(itemKeys)%aes.BlockSize != 0 {
+		return nil, nil
+	}
+
+	data, mac := itemKeys[:len(itemKeys)-32], itemKeys[len(itemKeys)-32:]
+
+	if err := s.CheckHmac(data, keys.MasterMac, mac); err != nil {
+		return nil, nil
+	}
+
+	plain, err := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+
+	if err != nil {
+		return nil, nil
+	}
 
 	return plain[0:32], plain[32:64]
 }
-- 
2.43.0


From 0ccfca3630a3f98459712eb190d7e71c6b76ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:21 +0000
Subject: [PATCH 03/21] fix: survive empty and malformed release lists

---
 1pass-up/component/github/updater.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 634b0a3..4967621 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -68,29 +68,30 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		return nil, err
 	}
 
-	if bodyJson == nil || bodyJson[0] == nil {
+	if len(bodyJson) == 0 || bodyJson[0] == nil {
 		return nil, nil
 	}
 
-	latestJson := bodyJson[0].(map[string]interface{})
-	changelog := latestJson["body"].(string)
-	version := latestJson["tag_name"].(string)
+	latestJson, _ := bodyJson[0].(map[string]interface{})
+	changelog, _ := latestJson["body"].(string)
+	version, _ := latestJson["tag_name"].(string)
 	newer := false
 	var archiveUrl string
 	var checksumUrl string
-	assets := latestJson["assets"].([]interface{})
+	assets, _ := latestJson["assets"].([]interface{})
 
 	if assets == nil {
 		return nil, nil
 	}
 
 	for _, assetJson := range assets {
-		asset := assetJson.(map[string]interface{})
+		asset, _ := assetJson.(map[string]interface{})
+		name, _ := asset["name"].(string)
 
-		if strings.Contains(asset["name"].(string), ".tar.gz") {
-			archiveUrl = asset["browser_download_url"].(string)
-		} else if strings.Contains(asset["name"].(string), ".md5") {
-			checksumUrl = asset["browser_download_url"].(string)
+		if strings.Contains(name, ".tar.gz") {
+			archiveUrl, _ = asset["browser_download_url"].(string)
+		} else if strings.Contains(name, ".md5") {
+			checksumUrl, _ = asset["browser_download_url"].(string)
 		}
 	}
 
-- 
2.43.0


From 32fcf9cedfc44161d63ab8d5106fcffdc109910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:23 +0000
Subject: [PATCH 04/21] fix: compare release versions component by component

---
 1pass-up/component/github/updater.go | 51 ++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 4967621..e3faa23 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -47,6 +47,49 @@ func httpClient(timeout int64) http.Client {
 	return httpClient
 }
 
+func parseVersion(version string) ([]uint64, error) {
+	parts := strings.Split(version, ".")
+	numbers := make([]uint64, len(parts))
+
+	for i, part := range parts {
+		number, err := strconv.ParseUint(part, 10, 64)
+
+		if err != nil {
+			return nil, err
+		}
+
+		numbers[i] = number
+	}
+
+	return numbers, nil
+}
+
+func isNewer(remote, current string) bool {
+	remoteVer, err := parseVersion(remote)
+
+	if err != nil {
+		return false
+	}
+
+	currVer, err := parseVersion(current)
+
+	if err != nil {
+		return false
+	}
+
+	for i, number := range remoteVer {
+		if i >= len(currVer) {
+			if number > 0 {
+				return true
+			}
+		} else if number != currVer[i] {
+			return number > currVer[i]
+		}
+	}
+
+	return false
+}
+
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
 	httpClient := httpClient(timeout)
 	resp, err := httpClient.Get(domain.GithubReleases)
@@ -75,7 +118,6 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 	latestJson, _ := bodyJson[0].(map[string]interface{})
 	changelog, _ := latestJson["body"].(string)
 	version, _ := latestJson["tag_name"].(string)
-	newer := false
 	var archiveUrl string
 	var checksumUrl string
 	assets, _ := latestJson["assets"].([]interface{})
@@ -95,12 +137,7 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		}
 	}
 
-	currVer, _ := strconv.ParseInt(strings.ReplaceAll(domain.Version, ".", ""), 10, 64)
-	remoteVer, _ := strconv.ParseInt(strings.ReplaceAll(version, ".", ""), 10, 64)
-
-	if remoteVer > currVer {
-		newer = true
-	}
+	newer := isNewer(version, domain.Version)
 
 	return domain.NewUpdateInfo(archiveUrl, checksumUrl, changelog, version, newer), nil
 }
-- 
2.43.0


From 6dadded1cdb516929299d329705fcab5faca2eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:26 +0000
Subject: [PATCH 05/21] fix: refuse archive entries outside of the destination

---
 1pass-up/component/github/updater.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index e3faa23..3a67b17 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -207,6 +207,11 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 		}
 
 		target := filepath.Join(dst, header.Name)
+		rel, err := filepath.Rel(dst, target)
+
+		if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return fmt.Errorf("archive entry %v is outside of the destination", header.Name)
+		}
 
 		if header.Typeflag == tar.TypeReg {
 			file, err := os.Create(target)
-- 
2.43.0


From 695a91616f84a3d8f7208956979c15f04b71644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:28 +0000
Subject: [PATCH 06/21] fix: make the new program executable before installing
 it

---
 1pass-up/component/github/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 3a67b17..32a4d6a 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -236,6 +236,10 @@ func (up *githubUpdater) ReplaceBinary(src string) error {
 		return err
 	}
 
+	if err := os.Chmod(src, 0755); err != nil {
+		return err
+	}
+
 	if err := os.Rename(src, dst); err != nil {
 		return err
 	}
-- 
2.43.0


From 8ca4cbd4c3933b7b2dfadd60b53deee44f778c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:30 +0000
Subject: [PATCH 07/21] fix: treat an empty checksum file as an invalid
 checksum

---
 1pass-up/component/github/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 32a4d6a..b5ec706 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -302,7 +302,7 @@ func (up *githubUpdater) ValidateChecksum(binary, file string) error {
 	bytes := hash.Sum(nil)
 	calculated := hex.EncodeToString(bytes)
 
-	if chunks[0] != calculated {
+	if len(chunks) == 0 || chunks[0] != calculated {
 		return domain.ErrInvalidMd5
 	}
 
-- 
2.43.0


From ed9e2c5f69d78f09f15724deb786b5fa5f1f888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:54 +0000
Subject: [PATCH 08/21] fix: show numeric dates as the day they stand for

---
 1pass-core/core/service/itemservice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 037ef49..4dcaed4 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -170,6 +171,8 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 			} else {
 				if dataType == domain.DataTypeEnum.Address {
 					value = domain.DataTypeEnum.ParseValue(dataType, "", data["v"].(map[string]interface{}))
+				} else if number, ok := data["v"].(float64); ok {
+					value = domain.DataTypeEnum.ParseValue(dataType, strconv.FormatFloat(number, 'f', -1, 64), nil)
 				} else {
 					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(data["v"]), nil)
 				}
-- 
2.43.0


From d498738d0360122d11d504337884bb67da7ce767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:57 +0000
Subject: [PATCH 09/21] fix: save configuration over an empty configuration
 file

---
 1pass-parse/repo/file/configrepo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 7d4764e..13c55dc 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -40,7 +40,7 @@ func loadConfigFile(configDir string) map[string]interface{} {
 		log.Fatalln(err)
 	}
 
-	var config map[string]interface{}
+	config := make(map[string]interface{})
 
 	if err := yaml.Unmarshal(file, &config); err != nil {
 		log.Fatalln(err)
-- 
2.43.0


From 2679129d6ca4da68877cb33defad6052bac90085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:04 +0000
Subject: [PATCH 10/21] fix: open the last category when there are no trashed
 items

---
 1pass-app/gui/1passwidget.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 50f5dbd..6113b90 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -183,10 +183,10 @@ func (ow *onepassWidget) showItems(ui *gocui.Gui, view *gocui.View) error {
 		if len(ow.categories) == 1 {
 			items = ow.guiControl.GetItems(nil, true)
 		} else {
-			if ow.currIdx == len(ow.categories)-1 {
-				items = ow.guiControl.GetItems(nil, true)
-			} else if ow.currIdx == 0 {
+			if ow.currIdx == 0 {
 				items = ow.guiControl.GetItems(nil, false)
+			} else if ow.categories[ow.currIdx] == nil {
+				items = ow.guiControl.GetItems(nil, true)
 			} else {
 				items = ow.guiControl.GetItems(ow.categories[ow.currIdx], false)
 			}
-- 
2.43.0


From 4f0fd76de1bef87562e63543132d8032e853210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:06 +0000
Subject: [PATCH 11/21] fix: scroll menu and details back to their start when
 reset

---
 1pass-app/gui/1passwidget.go   | 12 +++++++-----
 1pass-app/gui/detailswidget.go | 14 ++------------
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 6113b90..1e6ad91 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -132,13 +132,15 @@ func (ow *onepassWidget) promptForPassword(ui *gocui.Gui) error {
 
 func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
+		ox, _ := view.Origin()
 		cx, _ := view.Cursor()
 
-		if err := view.SetCursor(cx, 0); err != nil && oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetCursor(cx, 0); err != nil {
+			return err
+		}
+
+		if err := view.SetOrigin(ox, 0); err != nil {
+			return err
 		}
 	}
 
diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index 8889b36..b927a7c 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -39,18 +39,8 @@ func newDetailsWidget(parent string, helpWidget *helpWidget, lockHandler func(ui
 
 func (dw *detailsWidget) resetOrigin(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
-
-		if ox > 0 {
-			if err := view.SetOrigin(0, oy); err != nil {
-				return err
-			}
-		}
-
-		if oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetOrigin(0, 0); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 928e56ac63804436ce34a76137e8dcedffbd8056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:10 +0000
Subject: [PATCH 12/21] fix: show the result of the update check from the user
 interface loop

---
 1pass-app/gui/versionwidget.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/1pass-app/gui/versionwidget.go b/1pass-app/gui/versionwidget.go
index df3732b..e75ea4a 100644
--- a/1pass-app/gui/versionwidget.go
+++ b/1pass-app/gui/versionwidget.go
@@ -29,18 +29,27 @@ func newVerWidget(version string, guiControl in.GuiControl) *verWidget {
 }
 
 func (vw *verWidget) update(ui *gocui.Gui) {
-	view, _ := ui.View(vw.name)
 	info, err := vw.guiControl.CheckForUpdate()
 
-	if err != nil {
-		if err == domain.ErrNoUpdate {
-			fmt.Fprint(view, fmt.Sprintf("(%v)", err))
+	ui.Update(func(ui *gocui.Gui) error {
+		view, viewErr := ui.View(vw.name)
+
+		if viewErr != nil {
+			return viewErr
+		}
+
+		if err != nil {
+			if err == domain.ErrNoUpdate {
+				fmt.Fprint(view, fmt.Sprintf("(%v)", err))
+			} else {
+				fmt.Fprint(view, "(update check failed - run '1pass update' for more info)")
+			}
 		} else {
-			fmt.Fprint(view, "(update check failed - run '1pass update' for more info)")
+			fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
 		}
-	} else {
-		fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
-	}
+
+		return nil
+	})
 }
 
 func (vw *verWidget) Layout(ui *gocui.Gui) error {
-- 
2.43.0


From d9377fd2c5f927f8abe24420f625daecb50a428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:12 +0000
Subject: [PATCH 13/21] fix: load vaults with empty band files

---
 1pass-parse/repo/file/itemrepo.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 9f73385..708b177 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -94,7 +94,7 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	}
 
 	if len(bandFiles) != 0 {
-		itemsFile := "{"
+		bands := make([]string, 0)
 
 		for _, bandFile := range bandFiles {
 			file, err := ioutil.ReadFile(bandFile)
@@ -103,10 +103,12 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			itemsFile = itemsFile + string(file[4:len(file)-3]) + ","
+			if len(file) > 7 {
+				bands = append(bands, string(file[4:len(file)-3]))
+			}
 		}
 
-		itemsFile = itemsFile[:len(itemsFile)-1] + "}"
+		itemsFile := "{" + strings.Join(bands, ",") + "}"
 
 		if err := json.Unmarshal([]byte(itemsFile), &itemsJson); err != nil {
 			log.Fatalln(err)
-- 
2.43.0


From ee501486fcc755ce3acc448b04650319bc43f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 14/21] fix: find band files whatever characters the vault path
 holds

---
 1pass-parse/repo/file/itemrepo.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 708b177..84a1518 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -87,12 +87,21 @@ func (repo *fileItemRepo) FindFirstByUidAndTrashed(uid string, trashed bool) *do
 func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	items := make([]*domain.RawItem, 0)
 	var itemsJson map[string]interface{}
-	bandFiles, err := filepath.Glob(filepath.Join(vault.Path, domain.ProfileDir, domain.BandFilePattern))
+	profileDir := filepath.Join(vault.Path, domain.ProfileDir)
+	files, err := ioutil.ReadDir(profileDir)
 
 	if err != nil {
 		log.Fatalln(err)
 	}
 
+	bandFiles := make([]string, 0)
+
+	for _, file := range files {
+		if match, _ := filepath.Match(domain.BandFilePattern, file.Name()); match {
+			bandFiles = append(bandFiles, filepath.Join(profileDir, file.Name()))
+		}
+	}
+
 	if len(bandFiles) != 0 {
 		bands := make([]string, 0)
 
-- 
2.43.0


From ddc70f14091bcc2804693340df961d69acb190ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:04 +0000
Subject: [PATCH 15/21] fix: keep the fields of items that also have sections

---
 1pass-core/core/service/itemservice.go | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 4dcaed4..43dc35a 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -58,25 +58,25 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			detailsJson := s.DecodeDetails(encoded, keys)
 			sections := make([]*domain.ItemSection, 0)
 
-			if detailsJson["sections"] == nil {
-				if detailsJson["fields"] != nil {
-					fieldsJson := detailsJson["fields"].([]interface{})
-					fields := make([]*domain.ItemField, 0)
+			if detailsJson["fields"] != nil {
+				fieldsJson := detailsJson["fields"].([]interface{})
+				fields := make([]*domain.ItemField, 0)
 
-					for _, fieldJson := range fieldsJson {
-						field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
+				for _, fieldJson := range fieldsJson {
+					field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
 
-						if field != nil {
-							fields = append(fields, field)
-						}
+					if field != nil {
+						fields = append(fields, field)
 					}
+				}
 
-					if len(fields) != 0 {
-						section := domain.NewItemSection("", fields)
-						sections = append(sections, section)
-					}
+				if len(fields) != 0 {
+					section := domain.NewItemSection("", fields)
+					sections = append(sections, section)
 				}
-			} else {
+			}
+
+			if detailsJson["sections"] != nil {
 				sectionsJson := detailsJson["sections"].([]interface{})
 
 				for _, sectionJson := range sectionsJson {
-- 
2.43.0


From 79f5ffb86cb32e17a72ad3ffa905af006636465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:18 +0000
Subject: [PATCH 16/21] fix: unlock in the GUI with the password exactly as
 typed

---
 1pass-app/gui/1passwidget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 1e6ad91..db55166 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -149,7 +149,7 @@ func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 }
 
 func (ow *onepassWidget) unlock(ui *gocui.Gui, view *gocui.View) error {
-	password := strings.TrimSpace(view.ViewBuffer())
+	password := strings.TrimSuffix(view.Buffer(), "\n")
 
 	if err := ui.DeleteView(ow.passPrompt.name); err != nil {
 		return err
-- 
2.43.0


From 79b8b5afcf2d9e4d441bd0bc04f996d517e09702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:49 +0000
Subject: [PATCH 17/21] fix: keep long passwords typed in the GUI intact

---
 1pass-app/gui/passprompt.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/1pass-app/gui/passprompt.go b/1pass-app/gui/passprompt.go
index 4532fb9..9f8d518 100644
--- a/1pass-app/gui/passprompt.go
+++ b/1pass-app/gui/passprompt.go
@@ -22,6 +22,15 @@ func newPasswordPrompt(handler func(ui *gocui.Gui, view *gocui.View) error) *pas
 	}
 }
 
+func (pp *passwordPrompt) edit(view *gocui.View, key gocui.Key, ch rune, mod gocui.Modifier) {
+	gocui.DefaultEditor.Edit(view, key, ch, mod)
+	maxX, _ := view.Size()
+
+	if cx, cy := view.Cursor(); cx >= maxX {
+		view.SetCursor(maxX-1, cy)
+	}
+}
+
 func (pp *passwordPrompt) Keybindings(ui *gocui.Gui) error {
 	if err := ui.SetKeybinding(pp.name, gocui.KeyEnter, gocui.ModNone, pp.handler); err != nil {
 		return err
@@ -43,6 +52,7 @@ func (pp *passwordPrompt) Layout(ui *gocui.Gui) error {
 		view.Title = pp.title
 		view.Editable = true
 		view.Mask = '*'
+		view.Editor = gocui.EditorFunc(pp.edit)
 
 		if _, err := ui.SetCurrentView(pp.name); err != nil {
 			return err
-- 
2.43.0


From 09a630de9d096b52c3520bef4854977b5a59c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:56 +0000
Subject: [PATCH 18/21] fix: verify the checksum of the archive when extracting
 it

The tar reader stops at the end marker, so the gzip checksum behind it was never read and a
damaged archive was extracted without an error.
---
 1pass-up/component/github/updater.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index b5ec706..4e21d73 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -200,7 +200,10 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 
 		switch {
 		case err == io.EOF:
-			return nil
+			// the archive checksum comes after the last entry
+			_, err := io.Copy(ioutil.Discard, gz)
+
+			return err
 
 		case err != nil:
 			return err
-- 
2.43.0


From b258ca2f26250f37428e382b36b22a17db7185cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:13 +0000
Subject: [PATCH 19/21] fix: list items whose title has line breaks on exactly
 one row

---
 1pass-app/gui/itemswidget.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index 04457a8..37e5642 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -6,6 +6,7 @@ package gui
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/jroimartin/gocui"
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -18,6 +19,9 @@ Go back: Q
 Reveal item: TAB`
 )
 
+// An item takes exactly one row, also when its title has line breaks.
+var lineBreaks = strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ")
+
 type itemsWidget struct {
 	currIdx       int
 	name          string
@@ -188,7 +192,7 @@ func (iw *itemsWidget) update(ui *gocui.Gui) error {
 
 	if len(iw.items) > 0 {
 		for _, item := range iw.items {
-			title := item.Title
+			title := lineBreaks.Replace(item.Title)
 
 			if title == "" {
 				title = "<NO TITLE>"
-- 
2.43.0


From f92c4e28f1f3b1770018e36e3fd46fe73339b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:52 +0000
Subject: [PATCH 20/21] fix: show text with CR line breaks in the details pane

---
 1pass-app/gui/detailswidget.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index b927a7c..4acb98a 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -5,6 +5,7 @@
 package gui
 
 import (
+	"bytes"
 	"fmt"
 	"time"
 
@@ -18,6 +19,22 @@ Scroll left/right: h/l
 Cover item: TAB`
 )
 
+// A view takes CR as an order to clear the line written so far, here it is a line break like LF and CR LF.
+type lineWriter struct {
+	view *gocui.View
+}
+
+func (lw lineWriter) Write(text []byte) (int, error) {
+	lines := bytes.ReplaceAll(text, []byte("\r\n"), []byte("\n"))
+	lines = bytes.ReplaceAll(lines, []byte("\r"), []byte("\n"))
+
+	if _, err := lw.view.Write(lines); err != nil {
+		return 0, err
+	}
+
+	return len(text), nil
+}
+
 type detailsWidget struct {
 	name        string
 	title       string
@@ -118,18 +135,20 @@ func (dw *detailsWidget) toggleDetails(ui *gocui.Gui, view *gocui.View) error {
 }
 
 func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
-	view, err := ui.View(dw.name)
+	panel, err := ui.View(dw.name)
 
 	if err != nil {
 		return err
 	}
 
-	view.Clear()
+	panel.Clear()
 
-	if err := dw.resetOrigin(view); err != nil {
+	if err := dw.resetOrigin(panel); err != nil {
 		return err
 	}
 
+	view := lineWriter{panel}
+
 	if dw.item != nil {
 		fmt.Fprint(view, fmt.Sprintf("%v\n", dw.item.Category.GetName()))
 		fmt.Fprint(view, "------------------------------\n")
-- 
2.43.0


From b052bc4cf1d6496aed2347dc028f9e2349fb41df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:20 +0000
Subject: [PATCH 21/21] fix: take the whole line as an answer, blanks within it
 included

---
 1pass-term/control/cobra/clicontrol.go | 29 ++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index 69b0a51..d49a51d 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -34,6 +34,23 @@ func NewCobraCliControl(configFacade facade.ConfigFacade, updateFacade facade.Up
 	}
 }
 
+// An answer is a whole line, blanks within it included. It is read byte by byte to leave what follows to the next
+// question.
+func readAnswer() string {
+	answer := make([]byte, 0)
+	char := make([]byte, 1)
+
+	for {
+		size, err := os.Stdin.Read(char)
+
+		if size > 0 && char[0] != '\n' {
+			answer = append(answer, char[0])
+		} else if size > 0 || err != nil {
+			return strings.TrimSpace(string(answer))
+		}
+	}
+}
+
 func (ctrl *cobraCliControl) CheckForUpdate() {
 	config := ctrl.configFacade.GetConfig()
 
@@ -61,18 +78,18 @@ func (ctrl *cobraCliControl) Configure() {
 	fmt.Println("Configuring 1pass:")
 	fmt.Print(fmt.Sprintf("  1. Do you want to set default OPVault path? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&confirmVal)
+	confirmVal = readAnswer()
 	confirm, err := domain.LogicValEnum.FromName(confirmVal)
 
 	if err == nil && confirm == domain.LogicValEnum.Yes {
 		fmt.Print(fmt.Sprintf("     Default OPVault path (%v): ", config.Vault))
-		fmt.Scanln(&vaultVal)
+		vaultVal = readAnswer()
 		config.Vault = strings.TrimSpace(vaultVal)
 	}
 
 	fmt.Print(fmt.Sprintf("  2. Update notifications? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.FromValue(config.UpdateNotify).GetName()))
-	fmt.Scanln(&notifyVal)
+	notifyVal = readAnswer()
 	notify, err := domain.LogicValEnum.FromName(notifyVal)
 
 	if err == nil {
@@ -80,7 +97,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  3. Update HTTP timeout in seconds (%d) [1-30]: ", config.Timeout))
-	fmt.Scanln(&timeoutVal)
+	timeoutVal = readAnswer()
 	timeout, err := strconv.ParseInt(timeoutVal, 10, 64)
 
 	if err == nil && timeout >= 1 && timeout <= 30 {
@@ -88,7 +105,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  4. How often check for updates in days (%d) [0-365]: ", config.UpdatePeriod))
-	fmt.Scanln(&periodVal)
+	periodVal = readAnswer()
 	period, err := strconv.ParseInt(periodVal, 10, 64)
 
 	if err == nil && period >= 0 && period <= 365 {
@@ -360,7 +377,7 @@ func (ctrl *cobraCliControl) Update() {
 	fmt.Println(msg)
 	var permissionVal string
 	fmt.Print(fmt.Sprintf("Do you want to update now? (%v) [y - for yes/n - for no]: ", domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&permissionVal)
+	permissionVal = readAnswer()
 	permission, err := domain.LogicValEnum.FromName(permissionVal)
 
 	if err != nil || permission == domain.LogicValEnum.No {
-- 
2.43.0

